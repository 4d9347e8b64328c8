"""C03: interleave / de-interleave routing."""
import numpy as np
from lib.vf import Refused

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 MaxN = {mn}
 MaxM = {mm}
INVARIANTS Conserved Balanced RoundTrip EmitDone
CHECK_DEADLOCK FALSE
"""


def run(c):
    from adctoolbox import deinterleave, interleave
    r = c.rng
    em = c.tlc("Interleave", CFG.format(mode="ex", mn=c.n(16, 30), mm=c.n(9, 16)), name="Interleave/all", exhaustive=True)
    scen = []
    for _ in range(c.n(40, 300)):
        m = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, r.randint(1, 40)])
        n = m * r.randint(0, 12) + r.choice([0, 0, 0, r.randint(0, m)])
        scen.append({"N": n, "M": m})
    em += c.tlc("Interleave", CFG.format(mode="file", mn=1, mm=1), scen=scen, name="Interleave/random")

    def one(e, corrupt=False):
        n, m = e["N"], e["M"]
        dt = r.choice([float, int, complex, np.float32, np.int16, bool, "big", "str"])
        if dt == "big":
            x = (np.arange(n, dtype=np.int64) + 2 ** 60)
        elif dt == "str":
            x = np.array([f"s{i}" for i in range(n)], dtype=object)
        elif dt is bool:
            x = np.array([r.random() < .5 for _ in range(n)], dtype=bool)
        else:
            x = (np.arange(n) * 7 + 1).astype(dt)
        lay = r.randrange(3)
        if lay == 1:
            y = np.empty((n, 2), dtype=x.dtype)
            y[:, 0] = x
            arg = y[:, 0]
        elif lay == 2 and dt is float:
            arg = x.tolist()
        else:
            arg = x
        sc = {"N": n, "M": m, "dtype": str(dt)}
        got = c.call(deinterleave, arg, m)
        if not e["ok"]:
            c.check(isinstance(got, Refused) and isinstance(got.exc, ValueError), "uneven or non-positive split refused", sc, "ValueError", got)
            c.trace()
            return
        if n == 0:
            return
        exp = np.array([[x[i] for i in ch] for ch in e["ch"]], dtype=x.dtype).reshape(m, n // m)
        if corrupt and exp.size > 1:
            exp = np.roll(exp, 1)
        if not c.check(not isinstance(got, Refused) and np.shape(got) == exp.shape, "channel array shape", sc, exp.shape, got):
            return
        c.check(np.array_equal(got, exp), "sample n goes to channel n mod M", sc, exp.tolist(), np.asarray(got).tolist())
        c.check(np.asarray(got).dtype == np.asarray(arg).dtype, "values keep their type", sc)
        back = c.call(interleave, got)
        c.check(not isinstance(back, Refused) and np.array_equal(back, x) and np.shape(back) == (n,), "interleave restores the record", sc, x.tolist(), back)
        b2 = c.call(interleave, np.ascontiguousarray(exp) if r.random() < .5 else exp.tolist())
        if not corrupt:
            c.check(not isinstance(b2, Refused) and np.array_equal(b2, x), "interleave of any channel array", sc, x.tolist(), b2)
            if not isinstance(b2, Refused):
                d2 = c.call(deinterleave, b2, m)
                c.check(not isinstance(d2, Refused) and np.array_equal(d2, exp), "deinterleave inverts interleave", sc)
        c.trace({"N": n, "M": m, "channel0": e["ch"][0][:4]})

    for e in em:
        one(e)
    c.selftest(lambda: [one(e, True) for e in em if e["ok"]][:1])
    for shp in ((2, 3), (1, 6), (6, 1), (2, 3, 1), ()):
        x = np.zeros(shp)
        g = c.call(deinterleave, x, 1)
        c.check(isinstance(g, Refused), "non-1-D record refused", {"shape": shp}, "error", g)
    for shp in ((6,), (2, 3, 1), ()):
        g = c.call(interleave, np.zeros(shp))
        c.check(isinstance(g, Refused), "non-2-D channel array refused", {"shape": shp}, "error", g)
