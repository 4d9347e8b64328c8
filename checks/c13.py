"""C13: brick-wall band extraction."""
import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 Depth = {d}
INVARIANTS Symmetric Idempotent Commutes FullBand Tiles EmitAll
CHECK_DEADLOCK FALSE
"""


def project(x, kept):
    """Sum of the kept DFT components, evaluated directly."""
    n = len(x)
    k = np.arange(n)
    out = np.zeros(n, complex)
    for q in kept:
        w = np.exp(2j * np.pi * ((q * k) % n) / n)
        out += (x @ w.conj()) * w / n
    return out.real


def run(c):
    from adctoolbox import extract_freq_components
    r = c.rng
    em = c.tlc("BandFilter", CFG.format(mode="ex", mn=c.n(7, 9), d=1), name="BandFilter/single", exhaustive=True)
    em += c.tlc("BandFilter", CFG.format(mode="ex", mn=c.n(5, 6), d=2), name="BandFilter/chains", exhaustive=True)
    scen = []
    for _ in range(c.n(150, 1500)):
        n = r.choice([3, 8, 9, 15, 16, 31, 32, 63, 64, 100, 101, r.randint(2, 150)])
        res = r.choice([1, 3, 5])
        todo = []
        for _ in range(r.randint(1, 2)):
            bands = []
            for _ in range(r.randint(1, 3)):
                top = n * res // 2
                a, b = r.choice([0, r.randint(0, top)]), r.choice([top, r.randint(0, top)])
                if r.random() < .2:
                    b = a
                bands.append([a, b])
            todo.append(bands)
        if r.random() < .2:
            # up to Nyquist exactly, also where Nyquist is half-way between two bins
            res, todo = 2, [[[2 * r.choice([0, r.randint(0, (n - 1) // 2)]), n]]]
            if todo[0][0][0] == n:
                todo = [[[0, n]]]
        scen.append({"N": n, "res": res, "todo": todo})
    # odd res: no half-way edges except where N/2 itself is half-way (odd N): those are skipped by Legal
    em += c.tlc("BandFilter", CFG.format(mode="file", mn=1, d=1), scen=scen, name="BandFilter/random")

    def one(e, corrupt=False):
        n, res, kept = e["N"], e["res"], e["kept"]
        m = 1 if n < 2 else r.choice([1, 1, 2, min(n, 3)])
        data = np.array([[float(r.randint(-20, 20)) for _ in range(m)] for _ in range(n)])
        exp = np.column_stack([project(data[:, j], kept) for j in range(m)])
        if corrupt:
            exp = exp + 0.01
        lay = r.choice(["col", "row", "1d", "int"])
        arg = data
        if m == 1 and lay == "1d":
            arg = data[:, 0]
        elif lay == "row" and n > m:
            arg = data.T
        elif lay == "int":
            arg = data.astype(int)
        keep = np.array(arg, copy=True)
        y = arg
        sc = {"N": n, "cols": m, "hist": e["hist"], "res": res, "layout": lay}
        for bands in e["hist"]:
            bb = [[a / res / n, b / res / n] for a, b in bands]
            if len(bb) == 1 and r.random() < .3:
                bb = bb[0]
            y = c.call(extract_freq_components, y, np.array(bb) if r.random() < .5 else bb)
            if isinstance(y, Refused):
                break
        c.check(np.array_equal(arg, keep), "record left as given", sc)
        if not c.check(not isinstance(y, Refused) and np.size(y) == n * m and np.isrealobj(y), "real record of the same length", sc, (n, m), y):
            return
        y = np.asarray(y)
        got = y.reshape(n, m) if y.ndim == 1 else (y if y.shape == (n, m) else y.T)
        c.close(got, exp, "exactly the components inside the bands remain", sc, rtol=0, atol=1e-8)
        c.trace({"N": n, "hist": e["hist"], "kept": len(kept)})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em[:20]])
    x = np.arange(16.0)
    for what, bands in {"negative edge": [-0.1, 0.2], "edge above Nyquist": [0.1, 0.6], "three columns": [[0.1, 0.2, 0.3]]}.items():
        g = c.call(extract_freq_components, x, np.array(bands))
        c.check(isinstance(g, Refused) and isinstance(g.exc, ValueError), f"refused: {what}", {"bands": bands}, "ValueError", g)
    g = c.call(extract_freq_components, x + 1j, np.array([0.0, 0.5]))
    c.check(isinstance(g, Refused), "complex record refused", {}, "error", g)
