"""The options every error analysis hands on to its sine fit, and the diagnostics it returns of it."""
import numpy as np

KEYS = ("frequency", "amplitude", "phase", "dc_offset", "rmse", "converged", "n_iterations", "initial_frequency", "last_delta_freq")


def check(c, fn, npr, freq="frequency", **extra):
    """fn(signal, **kw): an error analysis returning a dict; freq: its name for the frequency."""
    from adctoolbox import fit_sine_4param
    r = c.rng
    for _ in range(c.n(6, 40)):
        n = r.choice([150, 333, 512])
        f = r.uniform(.03, .45)
        x = r.choice([1.0, 80.0]) * (np.cos(2 * np.pi * f * np.arange(n) + r.uniform(0, 6)) + .02 * npr.standard_normal(n)) + r.choice([0, 3.0])
        kw, fk = {}, {}
        if r.random() < .6:
            kw[freq] = fk["frequency_estimate"] = f + r.choice([0, .3, -.3]) / n
        if r.random() < .7:
            kw["max_iterations"] = fk["max_iterations"] = r.choice([0, 1, 2, 6])
        if r.random() < .7:
            kw["tolerance"] = fk["tolerance"] = 10.0 ** -r.randint(3, 12)
        sc = {"n": n, "f": f, "fit options": kw}
        fit = c.call(fit_sine_4param, x, **fk)
        plain, full = c.call(fn, x, **kw, **extra), c.call(fn, x, return_fit=True, **kw, **extra)
        if not c.check(all(isinstance(g, dict) for g in (fit, plain, full)), "analysis with fit options answers", sc, None, [plain, full]):
            continue
        c.check("fit" not in plain and isinstance(full.get("fit"), dict), "fit diagnostics come exactly when asked for", sc)
        d = full.get("fit", {})
        if c.check(set(KEYS) <= set(d), "fit diagnostics are complete", sc, KEYS, sorted(d)):
            c.close([float(d[k]) for k in KEYS], [float(fit[k]) for k in KEYS], "fit diagnostics are those of the fit with these options", sc, rtol=1e-9, atol=1e-12)
        for k, name in (("error_signal", "residuals"), ("error", "residuals"), ("fitted_signal", "fitted_signal")):
            if k in plain:
                c.close(plain[k], fit[name], f"{k} belongs to the fit with these options", sc, rtol=1e-9, atol=1e-9)
        c.check(set(full) - {"fit"} == set(plain) and all(np.array_equal(np.asarray(full[k]), np.asarray(plain[k]), equal_nan=True)
                for k in plain if np.asarray(plain[k]).dtype.kind in "fiub"), "diagnostics change nothing else", sc)
        c.trace()
