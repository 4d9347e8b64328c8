"""C27: validation of records."""
import warnings

import numpy as np

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
INVARIANTS WholeRecord OneOffenderSuffices AcceptedVaries StuckIsLegal EmitDone
CHECK_DEADLOCK FALSE
"""
SPECIAL = {99: float("nan"), 98: float("inf"), 97: float("-inf")}


def run(c):
    from adctoolbox.fundamentals import validate_aout_data, validate_dout_data
    r = c.rng
    em = c.tlc("Validate", CFG.format(mode="ex"), name="Validate/small records", exhaustive=True, workers=4)
    lim = c.n(6000, 40000)
    em = em if len(em) < lim else r.sample(em, lim)
    scen = []
    for i in range(c.n(400, 3000)):
        kind = r.choice(["aout", "dout"])
        mn = r.choice([100, 100, 100, 20, 5, 1])
        n = max(1, mn + r.choice([-1, 0, 1, 0, 0, 30, 150]))
        s = {"id": i, "kind": kind, "type": r.choice(["real"] * 12 + ["complex", "text", "object"]), "min": mn, "unit": 0}
        if kind == "aout":
            s["shape"] = r.choice([[n], [n], [n, r.randint(1, 4)], [r.randint(1, 4), n], [n, 1, 1], [n, 1], [1, n]])
            size = int(np.prod(s["shape"]))
            s["unit"] = r.choice([0, 0, 12, 13])
            a = r.choice([0, 0, 1, 3, 60, 120])
            s["x"] = [r.randint(-a, a) for _ in range(size)]
            if r.random() < .25:
                s["x"][r.randrange(size)] = r.choice([99, 98, 97])
            elif a == 0 and r.random() < .5:
                s["x"][r.randrange(size)] = 1
            if a > 90:          # keep the codes of the special values out of the ordinary ones
                s["x"] = [v if v not in (97, 98, 99) or r.random() < .02 else 90 for v in s["x"]]
            f = [v for v in s["x"] if v not in (97, 98, 99)]
            if s["unit"] == 12 and f and max(f) - min(f) == 100:      # the threshold itself is a matter of rounding
                continue
        else:
            m = r.randint(1, 6)
            s["shape"] = r.choice([[n, m], [n, m], [n, m], [m, n], [n * m], [n, m, 1], [n, n + 1] if n < 30 else [n, m]])
            size = int(np.prod(s["shape"]))
            p = r.choice([.5, .5, .02, .98, 0, 1])
            s["x"] = [int(r.random() < p) for _ in range(size)]
            if len(s["shape"]) == 2 and r.random() < .4:
                col, v = r.randrange(s["shape"][1]), r.randint(0, 1)
                for k in range(col, size, s["shape"][1]):
                    s["x"][k] = v
                if r.random() < .4:          # all but one
                    s["x"][r.choice(range(col, size, s["shape"][1]))] = 1 - v
            if r.random() < .25:
                s["x"][r.randrange(size)] = r.choice([2, -1, 99, 98, 97, 3, 96, 96])
        scen.append(s)
    em2 = c.tlc("Validate", CFG.format(mode="file"), scen=scen, name="Validate/around the limits", workers=6)
    by = {s["id"]: s for s in scen}

    def build(s, xs):
        """The record in one of the many forms arrays take; values are exact in each."""
        frac = {96: .5} if s["kind"] == "dout" else {}          # neither zero nor one
        v = [SPECIAL.get(x, frac.get(x, x)) for x in xs]
        ints = all(x not in SPECIAL and x not in frac for x in xs)
        shape = tuple(s["shape"])
        if s["type"] == "complex":
            return np.array(v, dtype=r.choice([complex, np.complex64])).reshape(shape), "complex"
        if s["type"] == "text":
            return np.array([str(x) for x in v]).reshape(shape), "text"
        if s["type"] == "object":
            a = np.empty(len(v), dtype=object)
            a[:] = [r.choice([x, None, str(x)]) for x in v]
            a[0] = r.choice([None, "x"])
            return a.reshape(shape), "object"
        scale = 10.0 ** -s["unit"]
        off = 0.0
        forms = [np.float64]
        if s["unit"] == 0:
            forms += [np.float32, np.float16, np.longdouble]
            if ints:
                forms += [np.int64, np.int16, np.int8, np.int32] + ([np.uint8, np.uint16] if not v or min(v) >= 0 else []) + ([bool] if s["kind"] == "dout" and set(v) <= {0, 1} else [])
        t = r.choice(forms)
        a = (np.array(v, dtype=float) * scale + off) if s["unit"] else np.array(v)
        a = a.astype(t).reshape(shape)
        lay = r.choice(["c", "f", "view", "list", "neg", "ro"]) if a.size else r.choice(["c", "list"])
        if lay == "f":
            a = np.asfortranarray(a)
        elif lay == "view" and a.ndim:
            b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
            b[::2] = a
            a = b[::2]
        elif lay == "neg" and a.ndim:
            a = a[::-1].copy()[::-1]
        elif lay == "ro":
            a = a.copy()
            a.flags.writeable = False
        elif lay == "list" and t is np.float64:
            return a.tolist(), "list"
        return a, f"{t.__name__}/{lay}"

    def verdict(fn, a, kw):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                fn(a, **kw)
                v = "accept"
            except Exception as e:  # noqa: BLE001
                v = type(e).__name__
        return v, [str(x.message) for x in w if not issubclass(x.category, (DeprecationWarning, FutureWarning))]

    def replay(e, corrupt=False):
        s = by.get(e["id"]) or e["cfg"]
        xs = s["x"] if e["id"] in by else e["x"]
        a, form = build(s, xs)
        keep = a.copy() if isinstance(a, np.ndarray) else repr(a)
        kw = {} if s["min"] == 100 and r.random() < .7 else {"min_samples": s["min"]}
        fn = validate_aout_data if s["kind"] == "aout" else validate_dout_data
        v, w = verdict(fn, a, kw)
        sc = {"kind": s["kind"], "type": s["type"], "form": form, "shape": s["shape"], "min": s["min"], "unit": s["unit"], "values": xs[:12]}
        want = "ValueError" if e["reject"] != corrupt else "accept"
        c.check(v == want, "accepted exactly when sound, refused with a value error", sc, want, v)
        if v == "accept":
            c.check(bool(w) == bool(e["warns"]) and len(w) == len(e["warns"]), "exactly the suspicious records draw a warning", sc, e["warns"], w)
            if s["kind"] == "dout":
                arr = np.asarray(a).astype(float)
                idx = lambda m: str(np.where(m)[0])  # noqa: E731
                if "low" in e["warns"]:
                    c.check(any(idx(arr.sum(0) == 0) in x for x in w), "the warning names the stuck bits", sc, idx(arr.sum(0) == 0), w)
                if "high" in e["warns"]:
                    c.check(any(idx(arr.sum(0) == len(arr)) in x for x in w), "the warning names the stuck bits", sc, idx(arr.sum(0) == len(arr)), w)
        same = repr(a.tolist()) == repr(keep.tolist()) and a.dtype == keep.dtype if isinstance(a, np.ndarray) else repr(a) == keep
        c.check(same, "the record is not modified", sc)
        c.trace({k: sc[k] for k in ("kind", "shape", "min", "values")} | {"reject": e["reject"]})

    for e in em + em2:
        replay(e)
    c.selftest(lambda: [replay(e, True) for e in em2[:5]])

    # long records: one offender anywhere is found, stuck bits are counted exactly in every type
    for _ in range(c.n(40, 300)):
        n = r.choice([4097, 5001, 20000, 70001])
        a = np.sin(np.arange(n))
        k = r.choice([0, n - 1, r.randrange(n)])
        bad = r.choice([np.nan, np.inf, -np.inf, None])
        if bad is not None:
            a[k] = bad
        v, w = verdict(validate_aout_data, a, {})
        c.check(v == ("accept" if bad is None else "ValueError") and not w, "an offender anywhere is found", {"n": n, "at": k, "value": str(bad)}, None, [v, w])
        b = np.ones((n, 2), dtype=r.choice([np.float16, np.float32, np.int8, np.uint8, bool]))
        b[: n // 2, 0] = 0
        one = r.random() < .5
        if one:
            b[k, 1] = 0
        v, w = verdict(validate_dout_data, b, {})
        c.check(v == "accept" and len(w) == (0 if one else 1), "a stuck bit is noticed in every type", {"n": n, "type": str(b.dtype), "stuck": not one}, None, [v, w])
        b = b.astype(r.choice([np.float32, np.float64]))
        odd = r.choice([.5, .25, 1e-6, -1, 2, np.nan])
        b[k, 0] = odd
        v, w = verdict(validate_dout_data, b, {})
        c.check(v == "ValueError", "a value that is neither zero nor one is found anywhere", {"n": n, "at": k, "value": odd}, "ValueError", [v, w])
        t = r.choice([np.int8, np.int16, np.int32])
        full = np.array([np.iinfo(t).min, np.iinfo(t).max] * 60, dtype=t)
        v, w = verdict(validate_aout_data, full, {})
        c.check(v == "accept" and not w, "a full-range integer record is sound", {"type": str(t)}, None, [v, w])
        c.trace()
