"""C28: analyses are pure; the session model's tokens determine every answer."""
import contextlib
import io
import multiprocessing as mp
import os
import pickle
import warnings

import numpy as np
from checks import ops28

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Pure = {{{pure}}}
 Noisy = {{{noisy}}}
 MaxLen = {ln}
 Seeds = {{1, 2}}
INVARIANTS AnalysesPure NoiseReproducible FiguresAreUsers EmitDone
CHECK_DEADLOCK FALSE
"""


def plain(x):
    """A result as nested plain data; things that are not data are named by type."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True) if x.dtype != object else [plain(v) for v in x.ravel()]
    if isinstance(x, (bool, int, float, complex, str, type(None), np.generic)):
        return x
    return "<" + type(x).__name__ + ">"


def same(a, b, tol=1e-9):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
        return bool(np.all(x == y))
    if x.size == 0:
        return True
    if x.dtype.kind == "b" or y.dtype.kind == "b":
        return bool(np.all(x == y))
    with np.errstate(all="ignore"):
        sc = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)))
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= tol * sc)))


def frozen(d):
    return pickle.dumps({k: plain(v) for k, v in d.items()})


def scribble(x):
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
    elif isinstance(x, np.ndarray) and x.dtype.kind in "fciub" and x.flags.writeable:
        x[...] = 1 if x.dtype.kind == "b" else 7


def figstate():
    import matplotlib.pyplot as plt
    out = []
    for k in plt.get_fignums():
        fg = plt._pylab_helpers.Gcf.figs[k].canvas.figure
        out.append((k, len(fg.axes), [(len(a.lines), len(a.collections), len(a.patches), len(a.texts), a.get_title(), a.get_xlabel()) for a in fg.axes]))
    return out


def play(hist, pure, noisy_names):
    """Runs one session; returns per event (result, problems)."""
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    d = ops28.inputs()
    state = {}
    np.random.seed(1000)
    mine, out, last = [], [], None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ops, noisy = ops28.table(state)
        for e in hist:
            kind, probs, res = e["kind"], [], None
            if kind in ("call", "noisy"):
                before, figs, cur = frozen(d), figstate(), plt._pylab_helpers.Gcf.get_active()
                rs = pickle.dumps(np.random.get_state())
                err = np.geterr()
                rc = dict(plt.rcParams)
                try:
                    if kind == "call":
                        fn, can = ops[pure[e["op"]]]
                        res = fn(d, bool(e["plot"]) and can)
                    else:
                        can = False
                        res = noisy[noisy_names[e["op"]]](d)
                except Exception as ex:     # an answer like any other: it must not depend on history
                    res = "raised %s: %s" % (type(ex).__name__, ex)
                last = res
                if frozen(d) != before:
                    probs.append("an input was modified")
                    d.update(ops28.inputs())
                    if e["tok"]["ver"]:
                        ops28.edit(d)
                if kind == "call" and pickle.dumps(np.random.get_state()) != rs:
                    probs.append("the global random state was disturbed")
                if np.geterr() != err:
                    probs.append("numpy error handling was changed")
                if dict(plt.rcParams) != rc:
                    probs.append("plot settings were changed")
                drew = kind == "call" and e["plot"] and can
                if not drew and (figstate() != figs or plt._pylab_helpers.Gcf.get_active() is not cur):
                    probs.append("figures changed although nothing was to be plotted")
                if drew and any(f.number not in plt.get_fignums() for f in mine):
                    probs.append("a figure of the user was closed")
                if drew:
                    for k in plt.get_fignums():
                        if all(k != f.number for f in mine):
                            plt.close(k)
                out.append((plain(res), probs))
                continue
            if kind == "draw":
                res = np.random.rand(3)
            elif kind == "seed":
                np.random.seed(e["op"])
            elif kind == "edit":
                ops28.edit(d)
            elif kind == "scribble":
                keep = ops28.inputs()
                ver = e["tok"]["ver"]
                scribble(last)
                if ver:
                    ops28.edit(keep)
                d = keep
            elif kind == "figure":
                fg = plt.figure()
                ax = fg.add_subplot(111)
                ax.plot([1, 2, 3])
                ax.set_title("mine %d" % len(mine))
                mine.append(fg)
            out.append((plain(res) if res is not None else None, probs))
    plt.close("all")
    return out


def run(c):
    import adctoolbox  # noqa: F401  imported here, called only in the children
    r = c.rng
    ops, noisy = ops28.table({})
    names, nnames = sorted(ops), sorted(noisy)
    em = c.tlc("Session", CFG.format(mode="ex", pure="1, 2", noisy="101", ln=4), name="Session/every short history", exhaustive=True, workers=4)
    big = c.tlc("Session", CFG.format(mode="ex", pure=", ".join(str(k + 1) for k in range(len(names))), noisy=", ".join(str(101 + k) for k in range(len(nnames))), ln=16),
                name="Session/long random histories", simulate=c.n(80, 600), depth=17)
    big = big[:c.n(80, 600)]
    jobs = []
    # alone in a fresh process: the reference
    for ver in (0, 1):
        for k, nm in enumerate(names):
            h = [{"kind": "edit", "op": 0, "plot": 0, "tok": {"op": 0, "ver": 0, "seed": -1, "log": []}}] * ver + \
                [{"kind": "call", "op": k + 1, "plot": 0, "tok": {"op": k + 1, "ver": ver, "seed": -1, "log": []}}]
            jobs.append((h, {j + 1: n for j, n in enumerate(names)}, {}))
    full = {j + 1: n for j, n in enumerate(names)}
    fulln = {101 + j: n for j, n in enumerate(nnames)}
    # each plotting variant at least once
    for k, nm in enumerate(names):
        if ops[nm][1]:
            ref = {"op": k + 1, "ver": 0, "seed": -1, "log": []}
            fig = {"kind": "figure", "op": 0, "plot": 0, "tok": ref}
            jobs.append(([fig, {"kind": "call", "op": k + 1, "plot": 1, "tok": ref}, {"kind": "call", "op": k + 1, "plot": 0, "tok": ref}], full, fulln))
    pick = em if len(em) <= c.n(250, 4000) else r.sample(em, c.n(250, 4000))
    for e in pick:
        a, b = r.choice(names), r.choice(names)
        jobs.append((e["hist"], {1: a, 2: b}, {101: r.choice(nnames)}))
    for e in big:
        jobs.append((e["hist"], full, fulln))
    ctx = mp.get_context("fork")
    seen = {}

    def learn(tok, res, sc, note):
        key = repr(tok)
        if key not in seen:
            seen[key] = (res, sc)
            return
        c.check(same(seen[key][0], res), "equal calls give equal answers " + note, {"here": sc, "elsewhere": seen[key][1]}, brief(seen[key][0]), brief(res))

    def brief(x):
        return repr(x)[:300]

    def absorb(job, out, corrupt=False):
        hist, pm, nm = job
        told = [ev["kind"] + ":" + (pm.get(ev["op"]) or nm.get(ev["op"]) or str(ev["op"])) + ("+plot" if ev["plot"] else "") for ev in hist]
        for ev, (res, probs) in zip(hist, out):
            sc = {"history": told, "at": ev["kind"] + ":" + str(pm.get(ev["op"]) or nm.get(ev["op"]) or "")}
            for p in probs:
                c.check(False, p, sc)
            if ev["kind"] in ("call", "noisy", "draw"):
                t = ev["tok"]
                tok = (pm.get(t["op"]) or nm.get(t["op"]) or "draw", t["ver"] if ev["kind"] != "draw" else 0, t["seed"], tuple(nm.get(x, "draw") for x in t["log"]))
                if corrupt:
                    tok = (tok[0], 0) + tok[2:]
                learn(tok, res, sc, "(%s)" % ev["kind"])
        c.trace({"history": told} if len(hist) > 1 else None)

    with ctx.Pool(6, maxtasksperchild=1) as pool:
        results = pool.starmap(play, jobs, chunksize=1)
    for job, out in zip(jobs, results):
        absorb(job, out)
    c.notes.append({"operations": len(names), "noise sources": len(nnames), "sessions": len(jobs), "distinct tokens": len(seen)})
    # an analysis must answer (not raise) on this ordinary data
    for (h, pm, _), out in list(zip(jobs, results))[:len(names) * 2]:
        c.check(not (isinstance(out[-1][0], str) and out[-1][0].startswith("raised")), "the operation answers", {"op": pm[h[-1]["op"]]}, None, out[-1][0] if isinstance(out[-1][0], str) else None)
    c.selftest(lambda: (seen.clear(), [absorb(j, o, True) for j, o in list(zip(jobs, results))[:len(names) * 2]]))
