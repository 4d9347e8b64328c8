"""Sheets of the binned error, the decomposition wheel and the digital diagnostics; dashboards panel by panel."""
import math
import re

import numpy as np
from checks.ops32 import drawn, near, number, texts

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Rows = 2
 Wid = 3
 Wmax = 4
INVARIANTS NeverBoth Ends LastBit Marked Positive {emit}
CHECK_DEADLOCK FALSE
"""


def scenarios(r, count):
    out = []
    while len(out) < count:
        m, n = r.randrange(1, 8), r.randrange(3, 40)
        kind = r.choice(["binary", "binary", "any", "trim"])
        w = [1 << (m - 1 - j) for j in range(m)] if kind == "binary" else r.sample(range(1, 60), m)
        if kind == "binary":
            w = [v * r.choice([3, 7]) for v in w] if r.random() < .3 else w
            if m > 3 and r.random() < .5:
                w[0] *= 5
        if r.random() < .6 and kind != "any":
            w = r.sample(w, m)
        w = [-v if kind == "trim" and r.random() < .3 else v for v in w]
        if any(sum(w[j:]) == 0 for j in range(m)) or len({abs(v) for v in w}) < m:
            continue
        p = [r.choice([.1, .5, .5, .9]) for _ in w]
        bits = [[int(r.random() < q) for q in p] for _ in range(n)]
        for j in range(r.randrange(3)):
            bits[j] = [j] * m
        out.append({"id": len(out), "bits": bits, "w": w, "chk": r.randrange(1, m + 1)})
    return out


def labels(ax, y, tol=1e-9):
    return [(round(float(t.get_position()[0]), 6), t.get_text()) for t in ax.texts if abs(t.get_position()[1] - y) <= tol]


def cloud(ax, x, y):
    """The points (x, y) are drawn as one set, in any order."""
    return drawn([ax], x, y)


def digital(c, s, e, g, plt):
    import adctoolbox as A
    bits, w = np.array(s["bits"]), np.array(s["w"], float)
    n, m = bits.shape
    ix = np.arange(1, m + 1)
    bad = []
    title = [None, "nu"][int(g.integers(2))]
    # activity
    _, ax = plt.subplots()
    q = A.analyze_bit_activity(bits, ax=ax, title=title)
    act = 100.0 * np.array(e["ones"]) / n
    if not (near(q, act) and drawn([ax], ix, act)):
        bad.append("activity")
    note = [(t.get_position(), t.get_text()) for t in ax.texts]
    o = next((v for v in e["odd"] if note and abs(note[0][0][0] - v) < 1e-9), e["odd"][0])
    if len(note) != 1 or note[0][1] != "%+.2f%%" % (act[o - 1] - 50) or abs(note[0][0][0] - o) > 1e-9:
        bad.append("note on the bit furthest from half: %r" % note)
    bars = [p for k in ax.containers for p in k.patches]
    odd = [j + 1 for j, p in enumerate(bars) if p.get_facecolor() != bars[(o - 2) % m].get_facecolor()] if m > 1 else [o]
    if odd != [o]:
        bad.append("bars set apart: %r" % odd)
    if ax.get_title() != (title or "Bit Activity") or not near(ax.get_xlim(), [.5, m + .5]) or ax.get_ylim() != (40, 60) or not any(near(l.get_ydata(), [50, 50]) for l in ax.lines):
        bad.append("frame of the activity")
    # overflow
    _, ax = plt.subplots()
    kw = {} if s["chk"] == m and s["id"] % 2 else {"ofb": s["chk"]}
    lo, hi, u, v = A.analyze_overflow(bits, w, ax=ax, title=title, **kw)
    res = np.array([bits[:, j:] @ w[j:] / np.sum(w[j:]) for j in range(m)])
    if not (near(u, 100.0 * np.array(e["under"]) / n) and near(v, 100.0 * np.array(e["over"]) / n) and drawn([ax], ix, np.min(res, 1)) and drawn([ax], ix, np.max(res, 1))):
        bad.append("overflow")
    cls = np.array(e["cls"])
    cnt = 0
    for name, dx in (("normal", 0), ("over", -.2), ("under", .2)):
        sel = cls == name
        cnt += m * bool(np.any(sel))
        for j in range(m):
            if np.any(sel) and not cloud(ax, np.full(np.sum(sel), j + 1 + dx), res[j, sel]):
                bad.append("samples %s at position %d" % (name, j + 1))
    if len(ax.collections) != cnt:
        bad.append("%d sets of samples, not %d" % (len(ax.collections), cnt))
    if labels(ax, -.05) != [(j + 1, "%.1f%%" % (100 * e["under"][j] / n)) for j in range(m)] or labels(ax, 1.05) != [(j + 1, "%.1f%%" % (100 * e["over"][j] / n)) for j in range(m)]:
        bad.append("shares %r %r" % (labels(ax, -.05), labels(ax, 1.05)))
    tick = list(zip(ax.get_xticks(), [t.get_text() for t in ax.get_xticklabels()]))
    if tick != [(j + 1, str(m - j)) for j in range(m)]:
        bad.append("bit numbers %r" % tick)
    if ax.get_title() != (title or "") or not near(ax.get_xlim(), [0, m + 1]) or not near(ax.get_ylim(), [-.1, 1.1]):
        bad.append("frame of the overflow")
    # radix
    _, ax = plt.subplots()
    q = A.analyze_weight_radix(w, ax=ax, title=title)
    aw = np.abs(w)
    want = {(e["msb"], "MSB"), *((j + 2, "/%.2f" % (a / b)) for j, (a, b) in enumerate(e["radix"]))} | ({(e["lsb"], "LSB")} if e["lsb"] != e["msb"] else set())
    got = {(float(t.get_position()[0]), t.get_text()): float(t.get_position()[1]) for t in ax.texts if not t.get_text().startswith("Eff")}
    if set(got) != want:
        bad.append("notes on the weights %r" % sorted(set(got) ^ want))
    elif any(abs(y / (aw[int(x) - 1] * (1.5 if t[0] == "/" else 1 / 1.5)) - 1) > 1e-9 for (x, t), y in got.items()):
        bad.append("place of the notes on the weights")
    if not number([ax], r"Eff. Res: ([\d.]+) bits", q["effres"]) or not drawn([ax], ix, aw) or ax.get_yscale() != "log":
        bad.append("weights")
    for name, sel in (("Positive", w > 0), ("Negative", w < 0)):
        ln = [l for l in ax.lines if l.get_label() == name]
        if len(ln) != bool(np.any(sel)) or (len(ln) and not (near(ln[0].get_xdata(), ix[sel]) and near(ln[0].get_ydata(), aw[sel]))):
            bad.append(name + " weights")
    if (ax.get_legend() is not None) != bool(np.any(w < 0)):
        bad.append("legend of the weights")
    if ax.get_title() != (title or "Bit Weights with Radix") or not near(ax.get_xlim(), [.5, m + .5]):
        bad.append("frame of the weights")
    plt.close("all")
    return bad


def sweep_sheet(g, plt):
    import adctoolbox as A
    m, n = int(g.integers(3, 9)), 256
    k = int(g.choice([13, 29, 51]))
    x = .5 + .49 * np.sin(2 * np.pi * k * np.arange(n) / n + .3)
    code = np.floor(x * 2 ** m).astype(int) & (2 ** m - 1)
    bits = (code[:, None] >> np.arange(m - 1, -1, -1)) & 1
    if g.random() < .5:                   # a last bit which only adds noise
        bits[:, -1] = g.integers(0, 2, n)
    _, ax = plt.subplots()
    title = [None, "nu"][int(g.integers(2))]
    en, nb = A.analyze_enob_sweep(bits, freq=k / n, ax=ax, title=title)
    bad = []
    if not drawn([ax], nb, en):
        bad.append("curve")
    want = ["%.2f" % en[0]] + ["+%.2f" % (b - a) for a, b in zip(en, en[1:])]
    up = .06 * np.ptp(en)
    got = [(float(t.get_position()[0]), float(t.get_position()[1]), t.get_text()) for t in ax.texts]
    if [t for _, _, t in got] != want or not near([x for x, _, _ in got], nb) or not near([y for _, y, _ in got], en + up):
        bad.append("notes %r" % got)
    if not near(ax.get_xlim(), [.5, m + .5]) or not near(ax.get_ylim(), [np.min(en) - .5, np.max(en) + 2]) or ax.get_title() != (title or "ENOB vs Number of Bits Used for Calibration"):
        bad.append("frame")
    plt.close("all")
    return bad, {"bits": m, "k": k}


def places(kind, plt, g):
    """Keyword arguments giving the analysis its place, and the box the panels must fill."""
    if kind in ("tuple", "array", "list"):
        _, axs = plt.subplots(2, 1)
        return {"axes": {"tuple": tuple, "list": list, "array": np.asarray}[kind](axs)}, list(axs), None
    fig = plt.figure()
    if kind == "grid":
        ax = fig.add_subplot(2, 2, int(g.integers(1, 5)))
    elif kind == "placed":
        ax = fig.add_axes([float(g.uniform(.05, .4)), float(g.uniform(.05, .4)), .5, .5])
    else:
        ax = fig.add_subplot(1, 2, 2)
        plt.sca(ax)
        return {}, None, None
    return {"ax": ax}, None, ax.get_position().bounds


def stacked(panels, box, bad):
    """The two panels stand one above the other, inside of the given box."""
    a, b = (p.get_position() for p in panels)
    if not (a.y0 >= b.y1 - 1e-9 and abs(a.x0 - b.x0) < 1e-9 and abs(a.x1 - b.x1) < 1e-9):
        bad.append("panels at %r and %r" % (a.bounds, b.bounds))
    if box is not None and not near([a.x0, a.x1, a.y1, b.y0], [box[0], box[0] + box[2], box[1] + box[3], box[1]], 1e-6):
        bad.append("panels outside of the place given")


def tone(g, dc=True):
    n = int(g.choice([200, 256, 500]))
    k = int(g.integers(5, n // 3))
    a = float(10.0 ** g.uniform(-5, .7))
    ph = 2 * np.pi * k * np.arange(n) / n + g.uniform(0, 6)
    x = a * np.cos(ph)
    kind = int(g.integers(4))
    if kind == 0:
        x = x * (1 + float(g.choice([1e-3, .05])) * g.standard_normal(n))
    elif kind == 1:
        x = a * np.cos(ph + float(g.choice([1e-4, .03])) * g.standard_normal(n))
    elif kind == 2:
        x = x + .02 * x ** 2 / a
    x = x + a * float(g.choice([1e-4, .02])) * g.standard_normal(n) + (a * g.uniform(-1, 1) if dc else 0)
    return x, n, k


def value_sheet(g, plt):
    import adctoolbox as A
    x, n, k = tone(g)
    nb = int(g.choice([4, 9, 20, 57]))
    kind = str(g.choice(["tuple", "array", "list", "grid", "placed", "current"]))
    kw, pan, box = places(kind, plt, g)
    title = [None, "nu"][int(g.integers(2))]
    if g.random() < .4:
        kw["value_range"] = (float(np.min(x) - .1 * np.ptp(x)), float(np.max(x) + .2 * np.ptp(x)))
    q = A.analyze_error_by_value(x, n_bins=nb, clip_percent=float(g.choice([0, .05, .12])), title=title, **kw)
    bad = []
    pan = pan or plt.gcf().axes[-2:]
    if kind not in ("tuple", "array", "list"):
        stacked(pan, box, bad)
    top, low = pan
    vc, er, rms = q["value_bin_centers"], q["error"], q["error_rms"]
    w = (vc[-1] - vc[0]) / (len(vc) - 1)
    nearest = np.clip(np.floor((x - vc[0]) / w + .5).astype(int), 0, nb - 1)
    tie = np.abs((x - vc[0]) / w % 1 - .5) < 1e-6
    if len(top.collections) != 1 or not near(np.asarray(top.collections[0].get_offsets())[~tie], np.column_stack([vc[nearest], er])[~tie]):
        bad.append("errors over the value of their bin")
    if not drawn([top], vc, q["error_mean"]) or not drawn([low], vc, rms):
        bad.append("mean and RMS")
    mg = .02 * (vc[-1] - vc[0])
    for a in pan:
        if not near(a.get_xlim(), [vc[0] - mg, vc[-1] + mg]):
            bad.append("values shown %r" % (a.get_xlim(),))
    if not near(top.get_ylim(), [np.min(er) - .1 * np.ptp(er), np.max(er) + .1 * np.ptp(er)]) or not near(low.get_ylim(), [0, 1.15 * np.nanmax(rms)]):
        bad.append("levels shown %r %r" % (top.get_ylim(), low.get_ylim()))
    width = {round(p.get_width() / w, 6) for k in low.containers for p in k.patches}
    if width != {.9}:
        bad.append("width of the bars %r" % width)
    if [top.get_title(), low.get_title(), top.get_ylabel(), low.get_ylabel(), low.get_xlabel()] != [title or "Value-Binned Residual Diagnostic", "Value-Binned RMS Residual", "Residual", "RMS Residual", "Signal Value"]:
        bad.append("titles")
    plt.close("all")
    return bad, {"n": n, "k": k, "bins": nb, "place": kind}


def unit(v):
    for lim, sc, u in ((1, 1, "V"), (1e-3, 1e3, "mV"), (1e-6, 1e6, "uV"), (1e-9, 1e9, "nV"), (1e-12, 1e12, "pV")):
        if abs(v) >= lim:
            return "%.2f %s" % (v * sc, u)
    return "0.00 uV"


def phase_sheet(g, plt):
    import adctoolbox as A
    x, n, k = tone(g)
    nb = int(g.choice([4, 9, 20, 57]))
    kind = str(g.choice(["tuple", "array", "list", "grid", "placed", "current"]))
    kw, pan, box = places(kind, plt, g)
    title = [None, "nu"][int(g.integers(2))]
    base = bool(g.random() < .6)
    q = A.analyze_error_by_phase(x, n_bins=nb, include_base_noise=base, title=title, **kw)
    bad = []
    allax = plt.gcf().axes
    if pan is None:                       # the second scale of the upper panel stands where the upper panel stands
        stack = {}
        for a in allax:
            stack.setdefault(tuple(np.round(a.get_position().bounds, 9)), []).append(a)
        if len(stack) != 2:
            return ["%d panels" % len(stack)], {"place": kind}
        up, dn = sorted(stack.values(), key=lambda v: -v[0].get_position().y0)
        stacked([up[0], dn[0]], box, bad)
    else:
        dn = [pan[1]]
        up = [a for a in allax if a is not pan[1]]
    if len(up) != 2 or len(dn) != 1:
        return bad + ["%d scales above, %d below" % (len(up), len(dn))], {"place": kind}
    low = dn[0]
    deg, ctr = np.degrees(q["phase"]) % 360, q["phase_bin_centers_rad"]
    data = [a for a in up if drawn([a], deg, q["fitted_signal"])]
    err = [a for a in up if drawn([a], deg, q["error"]) and drawn([a], np.degrees(ctr), q["bin_error_mean_v"])]
    if len(data) != 1 or len(err) != 1 or data[0] is err[0]:
        bad.append("sine and error on scales of their own")
    else:
        for a, v in ((data[0], q["fitted_signal"]), (err[0], q["error"])):
            if not near(a.get_ylim(), [np.min(v) - .1 * np.ptp(v), np.max(v) + .1 * np.ptp(v)]) or not near(a.get_xlim(), [0, 360]):
                bad.append("levels shown above")
        if [data[0].get_ylabel(), err[0].get_ylabel()] != ["Data", "Error"]:
            bad.append("labels of the scales")
    am, pm, bn = q["am_noise_rms_v"] ** 2, q["pm_noise_rms_v"] ** 2, q["base_noise_rms_v"] ** 2
    c2, s2 = np.cos(ctr) ** 2, np.sin(ctr) ** 2
    rad = q["pm_noise_rms_rad"]
    want = [("AM = " + unit(q["am_noise_rms_v"]), np.sqrt(am * c2 + bn)),
            ("PM = %s (%s)" % (unit(q["pm_noise_rms_v"]), "%.2f urad" % (rad * 1e6 if rad >= 1e-12 else 0)), np.sqrt(pm * s2 + bn)),
            ("Total = " + unit(q["total_rms_v"]), np.sqrt(am * c2 + pm * s2 + bn))]
    if base:
        want.insert(2, ("Base Noise = " + unit(q["base_noise_rms_v"]), np.full(nb, math.sqrt(bn))))
    got = {l.get_label(): l for l in low.lines}
    if sorted(got) != sorted(t for t, _ in want):
        bad.append("curves %r, not %r" % (sorted(got), sorted(t for t, _ in want)))
    else:
        for t, y in want:
            if not (near(got[t].get_xdata(), np.degrees(ctr)) and near(got[t].get_ydata(), y)):
                bad.append("curve " + t)
        if [t.get_text() for t in low.get_legend().get_texts()] != [t for t, _ in want]:
            bad.append("legend")
    if not drawn([low], np.degrees(ctr), q["bin_error_rms_v"]) or not near(low.get_ylim(), [0, 1.5 * np.nanmax(q["bin_error_rms_v"])]) or not near(low.get_xlim(), [0, 360]):
        bad.append("RMS bars")
    if [t.get_text() for t in low.texts] != ["R²=%.3f" % q["r_squared_binned"]]:
        bad.append("confidence")
    if not any(a.get_title() == (title or "Signal and Error vs Phase") for a in up) or low.get_title() != "RMS Error vs Phase":
        bad.append("titles")
    plt.close("all")
    return bad, {"n": n, "k": k, "bins": nb, "place": kind, "base": base}


def wheel_sheet(g, plt):
    import adctoolbox as A
    from adctoolbox.aout import plot_decomposition_polar
    x, n, k = tone(g)
    a = np.ptp(x) / 2
    t = np.arange(n)
    for h in (2, 3, 4):
        x = x + a * float(10.0 ** g.uniform(-5, -1)) * np.cos(2 * np.pi * h * k * t / n + g.uniform(0, 6))
    show, have = int(g.integers(1, 7)), int(g.integers(1, 7))
    have = max(show, have)
    polar = bool(g.random() < .7)
    fig = plt.figure()
    ax = fig.add_subplot(1, 2, 2, **({"projection": "polar"} if polar else {})) if g.random() < .6 else fig.add_axes([.1, .2, .5, .6], polar=polar)
    box = ax.get_position(original=True).bounds
    title = [None, "nu"][int(g.integers(2))]
    if have == show:
        q = A.analyze_decomposition_polar(x, harmonic=show, ax=ax, title=title)
        axs = fig.axes
        back = axs[0]
    else:
        q = A.analyze_decomposition_polar(x, harmonic=have, create_plot=False)
        back = plot_decomposition_polar(q, harmonic=show, ax=ax, title=title)
        axs = fig.axes
    bad = []
    if len(axs) != 1 or back is not axs[0] or not hasattr(axs[0], "set_theta_offset"):
        return ["%d axes" % len(axs)], {}
    ax = axs[0]
    if not near(ax.get_position(original=True).bounds, box, 1e-6):
        bad.append("place")
    db = np.asarray(q["magnitudes_db"])[:show]
    ph = np.asarray(q["phases"])[:show]
    lo = 10 * math.floor((min(np.min(db), q["noise_db"]) - 10) / 10)
    hi = 10 * math.ceil(np.max(db) / 10)
    ring = [l for l in ax.lines if len(l.get_xdata()) > 10]
    if len(ring) != 1 or not near(ring[0].get_ydata(), np.full(len(ring[0].get_ydata()), q["noise_db"] - lo)):
        bad.append("noise ring")
    dots = [(float(l.get_xdata()[0]), float(l.get_ydata()[0])) for l in ax.lines if len(l.get_xdata()) == 1]
    arms = [(float(l.get_xdata()[1]), float(l.get_ydata()[1])) for l in ax.lines if len(l.get_xdata()) == 2 and l.get_ydata()[0] == 0]
    if not near(np.array(dots).reshape(-1, 2), np.column_stack([ph, db - lo])) or not near(np.array(arms).reshape(-1, 2), np.column_stack([ph, db - lo])):
        bad.append("components %r" % dots)
    num = [(float(t.get_position()[0]) - .1, float(t.get_position()[1]), t.get_text()) for t in ax.texts if re.fullmatch(r"\d+", t.get_text())]
    if [t for _, _, t in num] != [str(j + 1) for j in range(show)] or not near([p for p, _, _ in num], ph) or not near([d for _, d, _ in num], db - lo):
        bad.append("orders %r" % num)
    if not number([ax], r"Residue Errors\s+([-+]?\d+\.\d+) dB", q["noise_db"]):
        bad.append("residue")
    tick = [(float(a), b.get_text()) for a, b in zip(ax.get_yticks(), ax.get_yticklabels())]
    if tick != [(float(v), str(int(lo + v))) for v in range(0, int(hi - lo) + 1, 10)] or not near(ax.get_ylim(), [0, hi - lo]):
        bad.append("radial scale %r" % tick)
    if ax.get_theta_direction() != -1 or abs(ax.get_theta_offset() - np.pi / 2) > 1e-9:
        bad.append("orientation")
    if ax.get_title() != (title + "\n" if title else "") + "Signal Component Phase":
        bad.append("title")
    plt.close("all")
    return bad, {"n": n, "k": k, "shown": show, "there": have}


def shown(axs):
    """What a group of axes shows besides titles, as a sorted list of plain items."""
    out = []
    for a in axs:
        out += [("line", tuple(np.round(np.asarray(v, float).ravel(), 12))) for l in a.lines for v in (l.get_xdata(), l.get_ydata())]
        out += [("set", tuple(np.round(np.ma.filled(q.get_offsets(), np.nan).astype(float).ravel(), 12))) for q in a.collections if len(q.get_offsets())]
        out += [("bar", round(float(p.get_x()), 12), round(float(p.get_height()), 12)) for k in a.containers for p in getattr(k, "patches", [])]
        out += [("text", t.get_text()) for t in a.texts]
        out += [("legend", t.get_text()) for t in (a.get_legend().get_texts() if a.get_legend() else [])]
        if a.get_aspect() == "auto" or a.get_adjustable() == "box":     # otherwise the limits follow the size of the figure
            out += [("limits", tuple(np.round(a.get_xlim() + a.get_ylim(), 9)))]
        out += [("labels", a.get_xlabel(), a.get_ylabel(), a.get_xscale(), a.get_yscale())]
    return sorted(map(repr, out))


def dashboard(kind, g, plt, turn=1):
    import adctoolbox as A
    import adctoolbox.aout as O
    from adctoolbox.calibration import calibrate_weight_sine
    from adctoolbox.toolset.generate_aout_dashboard import generate_aout_dashboard
    from adctoolbox.toolset.generate_aout_dashboard_3x4 import generate_aout_dashboard as big
    from adctoolbox.toolset.generate_dout_dashboard import generate_dout_dashboard
    n, k = 256, int(g.integers(9, 90))
    t = np.arange(n)
    x = .3 + .45 * np.sin(2 * np.pi * k * t / n + 1)
    x = x + .01 * x ** 2 + .01 * x ** 3 + 1e-3 * g.standard_normal(n)
    fs = float(g.choice([1.0, 250e6])) if turn else 250e6
    kw = {"fs": fs}
    f = None
    if g.random() < .6 or not turn:
        f = (k + float(g.choice([0, .04]))) / n
        kw["freq"] = f * fs
    res = 12
    if g.random() < .6:
        res = kw["resolution"] = int(g.choice([6, 10]))
    if kind == "dout":
        m = int(g.integers(4, 9))
        code = np.floor((x - x.min()) / np.ptp(x) * (2 ** m - 1e-6)).astype(int)
        bits = (code[:, None] >> np.arange(m - 1, -1, -1)) & 1
        w = None
        kw = {} if f is None else {"freq": f}
        if g.random() < .5:
            w = 2.0 ** np.arange(m - 1, -1, -1) * (1 + .05 * g.standard_normal(m))
            kw["weights"] = w if g.random() < .5 else list(w)
        fig, axes = generate_dout_dashboard(bits, **kw)
        cal = calibrate_weight_sine(bits, freq=f)
        cells = (2, 3)
        want = [lambda a: A.analyze_spectrum(bits @ (2.0 ** np.arange(m - 1, -1, -1) if w is None else w), ax=a), lambda a: A.analyze_spectrum(cal["calibrated_signal"], ax=a),
                lambda a: A.analyze_bit_activity(bits, ax=a), lambda a: A.analyze_overflow(bits, cal["weight"], ax=a),
                lambda a: A.analyze_enob_sweep(bits, freq=cal["refined_frequency"], ax=a), lambda a: A.analyze_weight_radix(cal["weight"], ax=a)]
        polar = ()
        titles = ["(1) Spectrum: Nominal Weights", "(2) Spectrum: Calibrated Weights", "(3) Bit Activity", "(4) Overflow Check", "(5) ENOB Bit Sweep", "(6) Weight Radix"]
    else:
        fig, axes = (generate_aout_dashboard if kind == "aout" else big)(x, **kw)
        cells = (2, 4) if kind == "aout" else (3, 4)
        want = [lambda a: A.analyze_spectrum(x, fs=fs, ax=a), lambda a: A.analyze_spectrum_polar(x, fs=fs, ax=a), lambda a: A.analyze_error_by_value(x, ax=a), lambda a: A.analyze_error_by_phase(x, ax=a),
                lambda a: A.analyze_decomposition_time(x, ax=a), lambda a: A.analyze_decomposition_polar(x, ax=a), lambda a: A.analyze_error_pdf(x, resolution=res, ax=a),
                lambda a: A.analyze_error_autocorr(x, frequency=f, ax=a)]
        polar = (1, 5)
        titles = ["(1) Spectrum", "(2) Spectrum Polar", "(3) Error by Value", "(4) Error by Phase", "(5) Time Domain Error Decomposition", "(6) Polar Plot of Error Decomposition", "(7) Error PDF", "(8) Error Autocorrelation"]
        if kind != "aout":
            want += [lambda a: A.analyze_error_spectrum(x, fs=fs, ax=a), lambda a: A.analyze_error_envelope_spectrum(x, fs=fs, ax=a),
                     lambda a: O.analyze_phase_plane(x, fs=fs, ax=a), lambda a: O.analyze_error_phase_plane(x, fs=fs, ax=a)]
            titles[4:6] = ["(5) Decomposition Time", "(6) Decomposition Polar"]
            titles += ["(9) Error Spectrum", "(10) Error Envelope Spectrum", "(11) Phase Plane", "(12) Error Phase Plane"]
    groups = {}
    for a in fig.axes:
        p = a.get_position()
        groups.setdefault(int((1 - (p.y0 + p.y1) / 2) * cells[0]) * cells[1] + int((p.x0 + p.x1) / 2 * cells[1]), []).append(a)
    bad = []
    if sorted(groups) != list(range(cells[0] * cells[1])):
        return ["panels in cells %r" % sorted(groups)], {"dashboard": kind}
    if len(axes) != len(want):
        bad.append("%d axes returned" % len(axes))
    for j, fn in enumerate(want):
        alone = plt.figure(figsize=(6, 6))
        a = alone.add_subplot(1, 1, 1, **({"projection": "polar"} if j in polar else {}))
        fn(a)
        u, v = shown(groups[j]), shown(alone.axes)
        if u != v:
            bad.append("panel %d differs from the analysis on its own: %r" % (j + 1, [str(z)[:80] for z in u if z not in v][:2] + [str(z)[:80] for z in v if z not in u][:2]))
        if titles[j] not in [z.get_title() for z in groups[j]]:
            bad.append("title of panel %d: %r" % (j + 1, [z.get_title() for z in groups[j]]))
        plt.close(alone)
    plt.close("all")
    return bad, {"dashboard": kind, **{k: v if np.isscalar(v) else [float(z) for z in v] for k, v in kw.items()}}


def run(c, plt):
    import contextlib
    import io
    import random
    import warnings
    r = random.Random("panels%d" % c.seed)
    c.tlc("DigitalSheet", CFG.format(mode="grid", emit=""), name="DigitalSheet/every short record", exhaustive=True, workers=4, expect_emit=False)
    scen = scenarios(r, c.n(24, 300))
    em = {e["id"]: e for e in c.tlc("DigitalSheet", CFG.format(mode="file", emit="EmitDone"), scen=scen, name="DigitalSheet/random records")}
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for s in scen:
            g = np.random.default_rng([c.seed, 37, s["id"]])
            bad = digital(c, s, em[s["id"]], g, plt)
            c.check(not bad, "digital sheets carry what the record holds", s, [], bad)
            for fn in (value_sheet, phase_sheet, wheel_sheet, sweep_sheet):
                bad, sc = fn(g, plt)
                c.check(not bad, "%s carries what was asked for" % fn.__name__.replace("_", " "), sc, [], bad)
            c.trace()
        for j in range(c.n(6, 30)):
            bad, sc = dashboard(["aout", "aout12", "dout"][j % 3], np.random.default_rng([c.seed, 38, j]), plt, j // 3)
            c.check(not bad, "every panel of a dashboard is the analysis on its own", sc, [], bad)
            c.trace()
        e = dict(em[0], ones=[v + 1 for v in em[0]["ones"]])
        c.selftest(lambda: c.check(not digital(c, scen[0], e, np.random.default_rng([c.seed, 37, 0]), plt), "digital sheets", scen[0], [], "seen"), "wrong count of ones")
