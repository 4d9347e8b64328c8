"""C34: answers depend on the numbers, not on how they are carried."""
import numpy as np
from checks import ops28
from checks.c28 import plain

CFG = """SPECIFICATION Spec
CONSTANTS
 Mode = "{mode}"
 Depth = {depth}
INVARIANTS InBounds ReadsTheSame NoTwoInOneCell TypeHolds EmitAll
CHECK_DEADLOCK FALSE
"""
LIMITS = {"b1": (0, 1), "i1": (-128, 127), "u1": (0, 255), "i2": (-32768, 32767), "u2": (0, 65535), "i4": (-2 ** 31, 2 ** 31 - 1), "u4": (0, 2 ** 32 - 1),
          "i8": (-2 ** 53, 2 ** 53), "u8": (0, 2 ** 53), "f8": (-2 ** 53, 2 ** 53)}
# these want array methods of what they are given: sequences are not offered to them
ARRAYS_ONLY = {"static", "calibrate", "calibrate two", "calibrate search", "calibrate lite", "sar reconstruct", "sar reconstruct wide", "units", "residuals raw"}


def carry(a, word):
    """The record re-carried step by step as the specification's word says."""
    a = np.asarray(a)
    for w in word:
        if w["op"] == "type":
            lo, hi = LIMITS[w["v"]]
            if a.size and (np.min(a) < lo or np.max(a) > hi or np.any(a != np.floor(a))):
                continue                    # this record does not fit: the step is not taken
            a = np.ascontiguousarray(a).astype({"b1": "?"}.get(w["v"], w["v"]))
        elif w["op"] == "lay":
            a = lay(a, w["v"])
        elif w["op"] == "swap":
            a = np.ascontiguousarray(a).astype(a.dtype.newbyteorder(">"))
        elif w["op"] == "freeze":
            a = a[...]
            a.flags.writeable = False
        elif w["op"] == "unpack":
            a = a.tolist()
            if w["v"] == "tuple":
                a = tuple(tuple(x) if isinstance(x, list) else x for x in a)
    return a


def lay(a, how):
    if how == "compact":
        return a.copy(order="C")
    if how == "columns":
        return a.copy(order="F")
    fill = 1 if a.dtype.kind == "b" else 77
    n = a.shape[-1]
    if how == "gaps":
        b = np.full(a.shape[:-1] + (2 * n,), fill, a.dtype)
        b = b[..., ::2]
    elif how == "backwards":
        b = np.full(a.shape, fill, a.dtype)[..., ::-1]
    elif how == "upside":
        b = np.full(a.shape, fill, a.dtype)[::-1]
    elif how == "window":
        b = np.full(a.shape[:-1] + (n + 5,), fill, a.dtype)[..., 2:2 + n]
    elif how == "offcut":
        b = np.full(a.size + 1, fill, a.dtype)[1:].reshape(a.shape)
    b[...] = a
    return b


def agree(a, b, floor):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(agree(a[k], b[k], floor) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y, floor) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return type(a) is type(b) and a == b
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "OUS" or y.dtype.kind in "OUS":
        return bool(np.all(x == y))
    x, y = x.astype(complex), y.astype(complex)
    if x.size == 0:
        return True
    with np.errstate(all="ignore"):
        sc = np.max(np.abs(np.where(np.isfinite(x), x, 0)))
        return bool(np.all((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= 1e-6 * sc + floor)))


def record(r, size, kind):
    """One user's arrays, whole numbers throughout, near the limits of the kind of number."""
    g = np.random.default_rng(r.randrange(2 ** 31))
    n = size
    lo, hi = LIMITS[kind]
    lo, hi = max(lo, -2 ** 31 + 1), min(hi, 2 ** 31 - 1)
    t = np.arange(n)
    k = max(3, int(round(n * r.choice([.0723, .031, .191])))) | 1
    span = hi - lo
    mid = lo + span / 2
    sig = np.round(mid + span * (.44 * np.sin(2 * np.pi * k * t / n + r.uniform(0, 6)) + .01 * np.sin(4 * np.pi * k * t / n) + .006 * g.standard_normal(n)))
    sig = np.clip(sig, lo, hi)
    nb = 8
    bits = ((np.clip(np.floor((sig - lo) / span * 256), 0, 255).astype(int)[:, None] >> np.arange(nb - 1, -1, -1)) & 1).astype(float)
    runs = np.stack([np.clip(np.roll(sig, 5 * j) + np.round(span * .004 * g.standard_normal(n)), lo, hi) for j in range(3)])
    d = ops28.inputs()
    d.update(sig=sig, runs=runs, bits=bits, chans=np.stack([sig[:n // 2], sig[n // 2:n // 2 * 2]]), codes=np.floor((sig - lo) / span * 60), ramp=np.sort(g.integers(0, 32, n)).astype(float),
             err=np.round(span * .1 * g.standard_normal(n)), weights=np.floor(hi * np.array([.95, .5, .26, .125, .0625, .03, .016, .008])), caps=np.array([1., 2, 4, 100]), caps_b=np.zeros(4), caps_p=np.array([0., 1, 0, 120]),
             osr=np.array([1., 2, 4, 8]), db=np.round(np.linspace(-80, 20, 11)) if lo < 0 else np.round(np.linspace(0, 100, 11)), band=np.array([[.0625, .25]]),
             params={"gain": np.array([1., 2]), "offset": np.array([0., 2]), "skew": np.array([0., 1])})
    return d, k / n, (lo, hi)


def table(d0, f0, lim):
    import adctoolbox as A
    import adctoolbox.aout as O
    import adctoolbox.dout as D
    from adctoolbox.siggen import ADC_Signal_Generator
    n = len(d0["sig"])
    lo, hi = lim
    gen = ADC_Signal_Generator(N=n, Fs=1e6, Fin=1e6 * f0, A=.4, DC=.5)
    ops, _ = ops28.table({"gen": gen})
    ops = {k: (lambda d, fn=v[0]: fn(d, False)) for k, v in ops.items() if k not in ("virtuoso", "coherent", "fold", "sar weights", "ntf", "ntfperf", "fit runs", "gen clean", "gen chain", "gen default")}
    if hi - lo > 300:
        del ops["inl volts"]                # whole numbers this large would be a histogram of billions of codes
    fsr = float(hi - lo)
    ops.update({
        "quantise wide": lambda d: gen.apply_quantization_noise(d["sig"], 5, (lo, hi)),
        "quantise own": lambda d: gen.apply_quantization_noise(d["sig"], n_bits=9, quant_range=(lo, lo + fsr / 3)),
        "gen reference wide": lambda d: gen.apply_reference_error(d["sig"], 3.0, .2),
        "gen nonlin high": lambda d: gen.apply_static_nonlinearity(d["sig"], k2=1e-3, k3=1e-6, k4=1e-9, k5=1e-12),
        "gen ra wide": lambda d: gen.apply_ra_gain_error(d["sig"], relative_gain=.9, msb_bits=3, lsb_bits=5),
        "gen am": lambda d: gen.apply_am_tone(d["sig"], 3e4, .4),
        "sar convert wide": lambda d: A.sar_convert(d["sig"], np.asarray(A.sar_ideal_weights(7)), quant_range=(lo, hi)),
        "sar reconstruct wide": lambda d: A.sar_reconstruct(d["bits"], np.asarray(A.sar_ideal_weights(8)), quant_range=(lo, hi)),
        "spectrum all": lambda d: A.analyze_spectrum(d["runs"], fs=3e6, osr=2, max_scale_range=[lo, hi], win_type="blackman", side_bin=2, nf_method=2, create_plot=False),
        "spectrum kaiser": lambda d: A.analyze_spectrum(d["sig"], win_type="kaiser", max_scale_range=fsr, nf_method=3, create_plot=False),
        "quick wide": lambda d: A.quick_sndr(d["sig"], win_type="hamming", side_bin=2, fs=2e6),
        # ranges read off the record itself, in whatever type it comes
        "quantise its range": lambda d: gen.apply_quantization_noise(d["sig"], 6, (np.min(d["sig"]), np.max(d["sig"]))),
        "sar convert its range": lambda d: A.sar_convert(d["sig"], np.asarray(A.sar_ideal_weights(7)), quant_range=(np.min(d["sig"]), np.max(d["sig"]))),
        "spectrum its range": lambda d: A.analyze_spectrum(d["sig"], max_scale_range=(np.min(d["sig"]), np.max(d["sig"])), create_plot=False),
        "spectrum its peak": lambda d: A.analyze_spectrum(d["sig"], max_scale_range=np.max(d["sig"]), create_plot=False),
        "by value its range": lambda d: O.rearrange_error_by_value(d["sig"], f0, n_bins=17, value_range=(np.min(d["sig"]), np.max(d["sig"]))),
        "fit columns": lambda d: A.fit_sine_4param(np.asarray(d["runs"]).T, frequency_estimate=f0, max_iterations=2),
        "fit known": lambda d: A.fit_sine_4param(d["sig"], frequency_estimate=f0, max_iterations=0),
        "decompose runs": lambda d: O.decompose_harmonic_error(d["runs"], n_harmonics=3, frequency=f0),
        "by value known": lambda d: O.rearrange_error_by_value(d["sig"], f0, n_bins=17, clip_percent=.05, value_range=(lo, hi)),
        "by phase known": lambda d: O.rearrange_error_by_phase(d["sig"], f0, n_bins=24, include_base_noise=False),
        "autocorr raw": lambda d: A.analyze_error_autocorr(d["sig"], f0, max_lag=30, normalize=False, create_plot=False),
        "pdf wide": lambda d: A.analyze_error_pdf(d["sig"], resolution=5, full_scale=fsr, frequency=f0, create_plot=False),
        "pdf auto": lambda d: A.analyze_error_pdf(d["sig"], resolution=6, create_plot=False),
        "plane lag": lambda d: O.analyze_phase_plane(d["sig"], lag=3, threshold=1.5, create_plot=False),
        "error plane volts": lambda d: O.analyze_error_phase_plane(d["sig"], fit_polynomial_order=3, create_plot=False),
        "inl codes": lambda d: O.compute_inl_from_sine(d["codes"], clip_percent=.01),
        "inl ramp own": lambda d: O.compute_inl_from_ramp(d["ramp"], endpoint="fit", exclude_endpoints=True),
        "overflow low": lambda d: A.analyze_overflow(d["bits"], d["weights"], ofb=3, create_plot=False),
        "residuals raw": lambda d: D.plot_residual_scatter(d["sig"], d["bits"], d["weights"], create_plot=False),
        "ramp codes": lambda d: O.compute_inl_from_ramp(np.concatenate([d["sig"], d["sig"]]) if fsr < 300 else d["ramp"], endpoint="endpoints"),
        "ramp stated": lambda d: O.compute_inl_from_ramp(d["sig"] if fsr < 300 else d["ramp"], num_bits=8 if fsr < 300 else 5, code_min=lo if fsr < 300 else 0),
        "sine codes": lambda d: O.compute_inl_from_sine(d["sig"] if fsr < 300 else d["codes"], num_bits=8),
        "fold many": lambda d: A.fold_frequency_to_nyquist(d["sig"], 100.0),
        "interleave three": lambda d: A.interleave(d["runs"]),
        "delay fft long": lambda d: A.fractional_delay_fft(d["sig"], -7.25, 1.0),
        "delay taps long": lambda d: A.fractional_delay_farrow(d["sig"], 7.25, 1.0, n_taps=5),
        "mismatch four": lambda d: A.extract_mismatch_sine(d["sig"][:n // 4 * 4], 4, 1.0, f0),
        "extract two": lambda d: A.extract_freq_components(np.asarray(d["runs"]).T, [[0, .1], [.2, .3]]),
        "mag": lambda d: [fn(np.abs(np.asarray(d["err"], float)) + 1.0) for fn in (A.mag_to_db, A.power_to_db)],
        "converter units": lambda d: [A.lsb_to_volts(d["codes"] if not isinstance(d["codes"], (list, tuple)) else np.asarray(d["codes"]), 2.0, 10),
                                      A.bin_to_freq(d["codes"] if not isinstance(d["codes"], (list, tuple)) else np.asarray(d["codes"]), 1e6, 512)],
    })
    return ops


def drawn(fig):
    """The numbers a dashboard shows: its curves and bars, axes by axes."""
    import matplotlib.pyplot as plt
    out = [[[np.asarray(ln.get_ydata(), float) for ln in a.lines], [p.get_height() for p in a.patches if hasattr(p, "get_height")]] for a in fig.axes]
    plt.close(fig)
    return out


def run(c):
    import matplotlib
    matplotlib.use("Agg")
    r = c.rng
    em = c.tlc("Carrier", CFG.format(mode="ex", depth=3), name="Carrier/every way of carrying, three steps", exhaustive=True, workers=4)
    # the carriers themselves are the specification's
    for e in em if c.thorough else r.sample(em, min(len(em), 1500)):
        v = np.array(e["vals"], float)
        a = carry(v, e["word"])
        ok = np.array_equal(np.asarray(a, float), v)
        if e["box"] == "array":
            it = a.itemsize
            ok = ok and (a.shape[0] == 1 or a.strides[0] == e["sr"] * it) and (a.shape[1] == 1 or a.strides[1] == e["sc"] * it) and a.flags.writeable != e["froz"] \
                and (a.dtype.byteorder == ">") == (e["swap"]) and a.dtype.newbyteorder("=") == np.dtype({"b1": "?"}.get(e["typ"], e["typ"]))
        if not ok:
            from lib.vf import MachineryError
            raise MachineryError("carrier differs from the specification's: %r" % (e,))
    # one word per distinct way of being carried
    ways = {}
    for e in em:
        key = (e["typ"], e["sr"] < 0, e["sc"] < 0, abs(e["sc"]) > 1, abs(e["sr"]) > len(e["vals"][0]), e["swap"], e["froz"], e["box"], tuple(w["v"] for w in e["word"] if w["op"] == "lay")[-1:])
        if key not in ways or len(e["word"]) < len(ways[key]):
            ways[key] = e["word"]
    ways = [ways[k] for k in sorted(ways)]
    seqs = [w for w in ways if any(x["op"] == "unpack" for x in w)]
    arrs = [w for w in ways if w not in seqs]
    single = [[w] for w in [{"op": "lay", "v": o} for o in ("columns", "gaps", "backwards", "upside", "window", "offcut")] +
              [{"op": "type", "v": t} for t in ("b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8")] +
              [{"op": "swap", "v": ""}, {"op": "freeze", "v": ""}, {"op": "unpack", "v": "list"}, {"op": "unpack", "v": "tuple"}]]
    sizes = {"i1": r.choice([512, 600]), "u1": r.choice([500, 729]), "i2": 512, "u2": r.choice([1000, 777]), "i4": r.choice([640, 513])}
    for kind in ("i1", "u1", "i2", "u2", "i4"):
        base, f0, lim = record(r, sizes[kind], kind)
        ops = table(base, f0, lim)
        floor = 1e-9 * max(abs(lim[0]), abs(lim[1]))

        class Carried(dict):
            """The user's arrays, each re-carried when it is asked for."""

            def __missing__(self, k):
                v = base[k]
                if isinstance(v, dict):
                    return {kk: carry(vv, [w for w in self.word if w["op"] != "unpack"]) for kk, vv in v.items()}
                return carry(v, self.word)

        def arrays(word):
            d = Carried()
            d.word = word
            return d

        def answer(fn, word):
            with np.errstate(all="ignore"):
                return c.call(fn, arrays(word))

        if kind in ("i1", "u1") or c.thorough:
            from adctoolbox.toolset.generate_aout_dashboard import generate_aout_dashboard
            from adctoolbox.toolset.generate_dout_dashboard import generate_dout_dashboard
            for what, fn in (("digital dashboard", lambda d: drawn(generate_dout_dashboard(d["bits"], freq=f0, weights=d["weights"])[0])),
                             ("analog dashboard", lambda d: drawn(generate_aout_dashboard(d["sig"], resolution=8)[0]))):
                ref = answer(fn, [])
                for word in ([{"op": "type", "v": kind}], r.choice(arrs)):
                    if any(w["v"] == "b1" for w in word):
                        continue
                    got = answer(fn, word)
                    sc = {"operation": what, "values up to": kind, "carried": [w["op"] + ":" + w["v"] for w in word]}
                    ok = type(ref).__name__ != "Refused" and type(got).__name__ != "Refused" and agree(ref, got, floor)
                    c.check(ok, "a dashboard shows the same numbers carried plainly", sc, None if ok else repr(ref)[:300], None if ok else repr(got)[:300])
                c.trace({"operation": what, "values up to": kind})
        answered = 0
        for name in sorted(ops):
            if name == "calibrate search" and kind != "u1" and not c.thorough:
                continue                    # slow, and the bits are the same numbers for every kind
            ref = answer(ops[name], [])
            raised = type(ref).__name__ == "Refused"
            answered += not raised
            words = single + r.sample(arrs, c.n(12, 80)) + r.sample(seqs, c.n(2, 10))
            for word in words:
                if name in ARRAYS_ONLY or name.startswith(("gen ", "quantise")):
                    if any(w["op"] == "unpack" for w in word):
                        continue
                if any(w["v"] == "b1" for w in word) and name != "activity" and not name.startswith(("calibrate", "overflow", "enob", "residuals", "validate", "sar rec")):
                    continue
                got = answer(ops[name], word)
                sc = {"operation": name, "values up to": kind, "carried": [w["op"] + ":" + w["v"] for w in word]}
                if type(got).__name__ == "Refused" or raised:
                    c.check(raised and type(got).__name__ == "Refused", "a record is accepted or refused for what it says", sc, ref, got)
                    continue
                ok = agree(plain(ref), plain(got), floor)
                c.check(ok, "the answer is that of the same numbers carried plainly", sc, None if ok else repr(ref)[:400], None if ok else repr(got)[:400])
            c.trace({"operation": name, "values up to": kind, "ways": len(words)})
        c.check(answered >= .9 * len(ops), "the operations answer", {"kind": kind}, len(ops), answered)
        if kind == "i2":
            def corrupt():
                good = plain(answer(ops["fit"], []))
                base["sig"][3] += 400
                c.check(agree(good, plain(answer(ops["fit"], [])), floor), "x", {})
                base["sig"][3] -= 400
            c.selftest(corrupt, "another number is another answer")
