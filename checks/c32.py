"""C32: figures.  Histories of the panel model are replayed with pyplot."""
import contextlib
import io
import os
import warnings

import numpy as np
from checks import ops32, panels32, sheets32

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxLen = {ln}
 MaxFigs = {mf}
 Dashes = {{{dashes}}}
INVARIANTS Traceable Kept FilesAreAsked {emit}
PROPERTY OneRegion
CHECK_DEADLOCK FALSE
"""


def content(a):
    """Everything the axes shows, as plain data."""
    def arr(v):
        return np.asarray(np.ma.filled(v, np.nan), float).tobytes()
    lines = [(arr(x.get_xdata()), arr(x.get_ydata())) for x in a.lines]
    colls = [arr(c.get_offsets()) + b"".join(arr(p.vertices) for p in c.get_paths()[:2000]) for c in a.collections]
    txt = [(t.get_text(), t.get_position()) for t in a.texts]
    return {"lines": lines, "collections": colls, "patches": [(p.get_xy() if hasattr(p, "get_xy") and np.size(p.get_xy()) == 2 else None,
            getattr(p, "get_height", lambda: None)()) for p in a.patches], "texts": txt,
            "labels": (a.get_title(), a.get_xlabel(), a.get_ylabel()), "limits": (a.get_xlim(), a.get_ylim())}


class Player:
    queue = {}

    def __init__(self, c, g, scratch):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        self.c, self.g, self.plt, self.scratch = c, g, plt, scratch
        plt.close("all")
        self.rec = ops32.record(g)
        self.ops = ops32.ops(self.rec)
        self.dash = ops32.dashboards(self.rec)
        self.regs, self.owner, self.figs, self.log = {}, {}, {}, []

    def close(self):
        self.plt.close("all")

    def snap(self):
        return {r: [content(a) for a in axs] for r, axs in self.regs.items() if self.fig_open(r)}

    def fig_open(self, r):
        return self.is_open(self.figs[self.owner[r]])

    def is_open(self, f):
        return self.numbered(f.number) is f

    def numbered(self, n):
        m = self.plt._pylab_helpers.Gcf.figs.get(n)     # does not select it
        return m and m.canvas.figure

    def pick(self, kind):
        """Every analysis of the kind in turn, in an order of this run."""
        if not Player.queue.get(kind):
            names = [k for k, v in self.ops.items() if v[0] == kind]
            Player.queue[kind] = [names[int(i)] for i in self.g.permutation(len(names))]
        return Player.queue[kind].pop()

    def step(self, s, h):
        """Plays history step h (number s); returns the list of problems."""
        plt, bad = self.plt, []
        act, reg, fig, arg = h["act"], h["reg"], h["fig"], h["arg"]
        if act == "new":
            k = h["k"]
            kw = {"subplot_kw": {"projection": "polar"}} if arg == "polar" else {}
            f, axs = plt.subplots(1, k, squeeze=False, **kw)
            self.figs[fig] = f
            for i, a in enumerate(axs.ravel()):
                self.regs[reg + i], self.owner[reg + i] = [a], fig
            return bad
        if act == "select":
            plt.sca(self.regs[reg][0])
            return bad
        if act == "close":
            plt.close(self.figs[fig])
            return bad
        before = self.snap()
        self.owner[reg] = fig
        nums = list(plt.get_fignums())
        allax = {n: list(self.numbered(n).axes) for n in nums}
        name, reqs = act, []
        if act in ("given", "current"):
            name = self.pick(arg)
            _, call, want = self.ops[name]
            a = self.regs[reg][0]
            if act == "given":
                res = call(ax=a)
            else:
                res = call()
            f = self.figs[fig]
            fresh = [x for x in f.axes if x not in allax.get(f.number, [])]
            if arg == "split":
                if a in f.axes:
                    fresh = [a] + fresh
                self.regs[reg] = fresh
                before.pop(reg, None)
            else:
                if a not in f.axes:
                    bad.append("the axes is gone from its figure")
                old = before.pop(reg, None)
                self.regs[reg] = self.regs[reg] + fresh
                if old is not None and a in f.axes:
                    now = content(a)
                    for kind in ("lines", "collections"):
                        if any(x not in now[kind] for x in old[0][kind]):
                            bad.append("what the axes showed before is gone")
            reqs = want(res)
        elif act == "own":
            name = "osr sweep"
            res = self.ops[name][1]()
            new = [n for n in plt.get_fignums() if n not in nums]
            if len(new) != 1:
                return ["a sweep without axes opened %d figures" % len(new)]
            self.figs[fig] = plt.figure(new[0])
            self.regs[reg] = list(self.figs[fig].axes)
            reqs = self.ops[name][2](res)
        elif act == "quiet":
            name = [k for k in self.ops][int(self.g.integers(len(self.ops)))]
            self.ops[name][1](create_plot=False)
        else:
            mode = act.split("-")[1]
            path = None
            if mode != "open":
                path = os.path.join(self.scratch, "d%d" % s, "deep", "board%d.%s" % (s, "png"))
                self.paths[s] = path
            f, axs = self.dash[arg][0](path, mode == "both")
            name = "dashboard " + arg
            self.figs[fig] = f
            self.regs[reg] = list(f.axes)
            if len(np.ravel(axs)) != self.dash[arg][2]:
                bad.append("the dashboard has %d panels" % len(np.ravel(axs)))
            reqs = self.dash[arg][1]()
        self.log.append(name)
        for r, old in before.items():
            if not self.fig_open(r):
                bad.append("the figure of region %d was closed" % r)
            elif [content(a) for a in self.regs[r]][:len(old)] != old or any(a not in self.figs[self.owner[r]].axes for a in self.regs[r]):
                bad.append("region %d, which was not addressed, changed" % r)
        for n in nums:
            f = self.numbered(n)
            if f is None:
                continue
            extra = [x for x in f.axes if x not in allax[n] and not any(x in v for v in self.regs.values())]
            if extra:
                bad.append("axes were added to a figure that was not addressed")
        if reqs:
            miss = [q[:2] if q[0] != "series" else ("series", None if q[1] is None else np.asarray(q[1])[:3].tolist(), np.asarray(q[2])[:3].tolist())
                    for q in reqs if not ops32.met(q, self.regs[reg])]
            self.reqs = self.reqs + len(reqs)
            if miss:
                bad.append("%s does not show %s" % (name, [str(m)[:120] for m in miss[:4]]))
        return ["%s: %s" % (name, b) for b in bad]


def expand(h, regs):
    """Adds to each 'new' step the number of regions it made."""
    for i, s in enumerate(h):
        if s["act"] == "new":
            s["k"] = sum(1 for r in regs if r["fig"] == s["fig"])
    return h


def replay(c, e, g, scratch, clause):
    p = Player(c, g, scratch)
    p.paths, p.reqs = {}, 0
    regs = e["regs"]
    hist = expand(e["hist"], regs)
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            for s, h in enumerate(hist, 1):
                try:
                    bad = p.step(s, h)
                except Exception as ex:
                    bad = ["raised %s: %s" % (type(ex).__name__, str(ex)[:200])]
                c.check(not bad, clause, {"history": [(x["act"], x["arg"], x["reg"]) for x in hist[:s]], "analyses": p.log, "n": p.rec["n"], "k": p.rec["k"], "fs": p.rec["fs"]},
                        "only the addressed region changes, and it shows the numbers returned", bad)
                if bad:
                    return p.reqs
            got = sorted(k for k, f in p.figs.items() if p.is_open(f))
            c.check(got == sorted(e["figs"]) and len(p.plt.get_fignums()) == len(got), "open figures", [(x["act"], x["arg"]) for x in hist], sorted(e["figs"]), got)
            files = sorted(s for s, q in p.paths.items() if os.path.exists(q) and os.path.getsize(q) > 1000 and open(q, "rb").read(4) == b"\x89PNG")
            c.check(files == sorted(e["files"]), "saved dashboards", [(x["act"], x["arg"]) for x in hist], sorted(e["files"]), files)
        finally:
            p.close()
    return p.reqs


def run(c):
    g = np.random.default_rng([c.seed, 32])
    scratch = c.scratch
    em = c.tlc("Panels", CFG.format(ln=4, mf=2, dashes="", emit="EmitDone"), name="panels", workers=4, exhaustive=True)
    em = [e for e in em if any(h["act"] in ("given", "current", "own") for h in e["hist"])]
    idx = g.permutation(len(em))[:c.n(90, 1500)]
    reqs = 0
    for i in idx:
        reqs += replay(c, em[int(i)], np.random.default_rng([c.seed, 32, int(i)]), scratch, "panels")
        c.trace()
    sim = c.tlc("Panels", CFG.format(ln=9, mf=3, dashes="", emit="EmitDone"), name="panels-long", simulate=c.n(20, 300), depth=12)
    for i, e in enumerate(sim[:c.n(20, 300)]):
        reqs += replay(c, e, np.random.default_rng([c.seed, 33, i]), scratch, "long sessions")
        c.trace()
    dsh = c.tlc("Panels", CFG.format(ln=2, mf=2, dashes='"aout", "aout12", "dout"', emit="EmitDone"), name="dashboards", exhaustive=True)
    dsh = [e for e in dsh if any(h["act"].startswith("dash") for h in e["hist"])]
    byk = {}
    for i, e in enumerate(dsh):
        last = e["hist"][-1]
        if last["act"].startswith("dash") and e["hist"][0]["act"] in ("new", "own"):
            byk.setdefault((last["act"], last["arg"]), []).append(i)
    for key in sorted(byk):
        for i in g.permutation(byk[key])[:c.n(1, 4)]:
            reqs += replay(c, dsh[int(i)], np.random.default_rng([c.seed, 34, int(i)]), scratch, "dashboards")
            c.trace()
    # the machinery notices a curve and a number that are slightly off
    p = Player(c, np.random.default_rng([c.seed, 35]), scratch)
    _, a = p.plt.subplots()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = p.ops["density"][1](ax=a)
    for q in (("number", "KL" + ops32.NUM, res["kl_divergence"] + .01), ("series", res["x"], res["pdf"] * 1.0001), ("title", "nu")):
        c.selftest(lambda: c.check(ops32.met(q, [a]), "panels", q[0], "shown", "not shown"), q[0])
    sheets32.run(c, p.plt)
    panels32.run(c, p.plt)
    p.close()
    c.notes.append("%d requirements on drawn content" % reqs)
