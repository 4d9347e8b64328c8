"""Operations of a session: every public analysis, on shared arrays."""
import numpy as np

N = 512
K = 37


def inputs():
    """The user's arrays.  Called anew for each process: same contents every time."""
    g = np.random.default_rng(28)
    t = np.arange(N)
    s = .45 * np.sin(2 * np.pi * K * t / N + .7)
    sig = s + .004 * s ** 2 + 1e-3 * g.standard_normal(N) + .5
    runs = np.stack([sig + 1e-3 * g.standard_normal(N) for _ in range(3)])
    codes = np.clip(np.floor(sig * 64), 0, 63).astype(int)
    bits = ((np.clip(np.floor(sig * 256), 0, 255).astype(int)[:, None] >> np.arange(7, -1, -1)) & 1).astype(float)
    ramp = np.sort(g.integers(0, 32, N))
    return {"sig": sig, "runs": runs, "codes": codes, "bits": bits, "ramp": ramp, "weights": 2.0 ** np.arange(7, -1, -1) / 256,
            "chans": np.stack([sig[:256], sig[256:] * 1.01]), "err": g.standard_normal(N), "band": np.array([[.05, .2]]),
            "caps": np.array([1., 2, 4, 8]), "caps_b": np.array([0., 0, 0, 0]), "caps_p": np.array([0., .1, 0, .2]),
            "osr": np.array([1, 2, 4, 8]), "params": {"gain": np.array([1.0, 1.01]), "offset": np.array([0., .002]), "skew": np.array([0., 1e-3])},
            "db": np.linspace(-80, 20, 11)}


def edit(d):
    """The user edits the arrays in place (an involution)."""
    d["sig"][:] = d["sig"][::-1].copy()
    d["runs"][:] = d["runs"][:, ::-1].copy()
    d["codes"][:] = 63 - d["codes"]
    d["bits"][:] = d["bits"][::-1].copy()
    d["ramp"][:] = 31 - d["ramp"]
    d["err"][:] = -d["err"]
    d["chans"][:] = d["chans"][::-1].copy()
    d["weights"][[3, 4]] = d["weights"][[4, 3]]
    d["caps"][[0, 1]] = d["caps"][[1, 0]]
    d["params"]["gain"][:] = d["params"]["gain"][::-1].copy()
    d["params"]["offset"][:] = d["params"]["offset"][::-1].copy()


def polar_axes():
    import matplotlib.pyplot as plt
    return plt.figure().add_subplot(projection="polar")


def table(state):
    """name -> (callable(d, plot), can_plot).  `state` carries objects the user keeps."""
    import adctoolbox as A
    import adctoolbox.aout as O
    import adctoolbox.dout as D
    import adctoolbox.fundamentals as F
    from adctoolbox.calibration import calibrate_weight_sine_lite
    from adctoolbox.siggen import ADC_Signal_Generator
    from adctoolbox.spectrum import compute_spectrum
    f0 = K / N
    if "gen" not in state:
        state["gen"] = ADC_Signal_Generator(N=N, Fs=1e6, Fin=1e6 * K / N, A=.4, DC=.5)
    gen = state["gen"]
    ops = {}

    def op(name, fn, plot=False):
        ops[name] = (fn, plot)

    for w in ("hann", "boxcar"):
        op("spectrum/" + w, lambda d, p, w=w: A.analyze_spectrum(d["sig"], win_type=w, create_plot=p), True)
    op("spectrum/runs", lambda d, p: A.analyze_spectrum(d["runs"], create_plot=p), True)
    op("spectrum/coherent", lambda d, p: A.analyze_spectrum(d["runs"], coherent_averaging=True, create_plot=p), True)
    op("spectrum/osr", lambda d, p: A.analyze_spectrum(d["sig"], osr=4, fs=1e6, max_scale_range=1.0, create_plot=p), True)
    op("spectrum/range", lambda d, p: A.analyze_spectrum(d["sig"], max_scale_range=[0, 1], nf_method=1, create_plot=p), True)
    op("virtuoso", lambda d, p: A.analyze_spectrum_virtuoso(d["sig"], create_plot=p), True)
    op("polar", lambda d, p: A.analyze_spectrum_polar(d["runs"], create_plot=p, ax=polar_axes() if p else None), True)
    op("compute_spectrum", lambda d, p: compute_spectrum(d["sig"]))
    op("quick_sndr", lambda d, p: A.quick_sndr(d["sig"]))
    op("osr sweep", lambda d, p: A.sweep_performance_vs_osr(d["sig"], osr=d["osr"], create_plot=p), True)
    op("perfosr", lambda d, p: A.perfosr(d["sig"], disp=p, osr=d["osr"]), True)
    op("fit", lambda d, p: A.fit_sine_4param(d["sig"], max_iterations=3))
    op("fit runs", lambda d, p: A.fit_sine_4param(d["runs"]))
    op("estimate", lambda d, p: A.estimate_frequency(d["sig"], fs=2.0))
    op("decompose polar", lambda d, p: A.analyze_decomposition_polar(d["sig"], create_plot=p), True)
    op("decompose time", lambda d, p: A.analyze_decomposition_time(d["sig"], create_plot=p), True)
    op("decompose", lambda d, p: O.decompose_harmonic_error(d["sig"], 3, f0))
    op("by value", lambda d, p: A.analyze_error_by_value(d["sig"], n_bins=20, create_plot=p), True)
    op("by phase", lambda d, p: A.analyze_error_by_phase(d["sig"], f0, n_bins=20, create_plot=p), True)
    op("autocorr", lambda d, p: A.analyze_error_autocorr(d["sig"], f0, max_lag=9, create_plot=p), True)
    op("pdf", lambda d, p: A.analyze_error_pdf(d["sig"], resolution=8, full_scale=1.0, create_plot=p), True)
    op("error spectrum", lambda d, p: A.analyze_error_spectrum(d["sig"], create_plot=p), True)
    op("envelope", lambda d, p: A.analyze_error_envelope_spectrum(d["sig"], create_plot=p), True)
    op("phase plane", lambda d, p: O.analyze_phase_plane(d["sig"], create_plot=p), True)
    op("error plane", lambda d, p: O.analyze_error_phase_plane(d["sig"], create_plot=p), True)
    op("static", lambda d, p: A.fit_static_nonlin(d["sig"], 3))
    op("inl sine", lambda d, p: A.analyze_inl_from_sine(d["codes"], num_bits=6, create_plot=p), True)
    op("inl volts", lambda d, p: A.analyze_inl_from_sine(d["sig"], num_bits=5, full_scale=1.0, create_plot=p), True)
    op("inl ramp", lambda d, p: A.analyze_inl_from_ramp(d["ramp"], num_bits=5, create_plot=p), True)
    op("inl ramp fit", lambda d, p: O.compute_inl_from_ramp(d["ramp"], num_bits=5, exclude_endpoints=False))
    op("activity", lambda d, p: A.analyze_bit_activity(d["bits"], create_plot=p), True)
    op("overflow", lambda d, p: A.analyze_overflow(d["bits"], d["weights"], create_plot=p), True)
    op("radix", lambda d, p: A.analyze_weight_radix(d["weights"], create_plot=p), True)
    op("enob sweep", lambda d, p: A.analyze_enob_sweep(d["bits"], freq=f0, create_plot=p), True)
    op("residuals", lambda d, p: D.plot_residual_scatter(d["sig"], d["bits"], d["weights"], create_plot=p), True)
    op("calibrate", lambda d, p: A.calibrate_weight_sine(d["bits"], freq=f0))
    op("calibrate two", lambda d, p: A.calibrate_weight_sine([d["bits"][:300], d["bits"][200:]], freq=f0, harmonic_order=3))
    op("calibrate search", lambda d, p: A.calibrate_weight_sine(d["bits"], freq=f0, force_search=True, nominal_weights=d["weights"]))
    op("calibrate lite", lambda d, p: calibrate_weight_sine_lite(d["bits"], f0))
    op("sar convert", lambda d, p: A.sar_convert(d["sig"], d["weights"]))
    op("sar reconstruct", lambda d, p: A.sar_reconstruct(d["bits"], d["weights"]))
    op("sar mismatch", lambda d, p: A.sar_apply_mismatch(d["weights"], .01, rng=np.random.default_rng(3)))
    op("sar noise", lambda d, p: A.sar_convert(d["sig"], d["weights"], sampling_noise_rms=1e-3, comparator_noise_rms=1e-3, rng=np.random.default_rng(4)))
    op("cap mismatch", lambda d, p: A.sar_apply_cap_mismatch(d["weights"], .01, rng=np.random.default_rng(5)))
    op("sar weights", lambda d, p: A.sar_ideal_weights(8, 4))
    op("caps", lambda d, p: F.convert_cap_to_weight(d["caps"], d["caps_b"], d["caps_p"]))
    op("interleave", lambda d, p: A.interleave(d["chans"]))
    op("deinterleave", lambda d, p: A.deinterleave(d["sig"], 2))
    op("mismatch", lambda d, p: A.extract_mismatch_sine(d["sig"], 2, 1.0, f0))
    op("foreground", lambda d, p: A.calibrate_foreground(d["sig"], 2, d["params"], 1.0))
    op("foreground farrow", lambda d, p: A.calibrate_foreground(d["sig"], 2, d["params"], 1.0, skew_method="farrow"))
    op("spurs", lambda d, p: A.predict_spurs(d["params"], 1.0, f0))
    op("delay fft", lambda d, p: A.fractional_delay_fft(d["sig"], .3, 1.0))
    op("delay farrow", lambda d, p: A.fractional_delay_farrow(d["sig"], .3, 1.0))
    op("ifilter", lambda d, p: A.ifilter(d["sig"], d["band"]))
    op("extract", lambda d, p: A.extract_freq_components(d["sig"], d["band"]))
    op("coherent", lambda d, p: A.find_coherent_frequency(1e6, 2e5, 1024))
    op("fold", lambda d, p: [A.fold_bin_to_nyquist(k, 64) for k in (3, 40, 70)])
    op("units", lambda d, p: [fn(d["db"]) for fn in (A.db_to_mag, A.db_to_power, A.dbm_to_mw, A.dbm_to_vrms, A.snr_to_enob, A.enob_to_snr)])
    op("nsd", lambda d, p: (A.snr_to_nsd(d["db"], 1e6), A.nsd_to_snr(d["db"], 1e6), A.amplitudes_to_snr(np.abs(d["db"]) + 1, .1)))
    op("ntf", lambda d, p: A.ntf_analyzer(([1.0, -1.0], [1.0, 0.0]), 0.0, .1))
    op("ntfperf", lambda d, p: A.ntfperf(([1.0, -1.0], [1.0, 0.0]), 0.0, .1))
    op("validate a", lambda d, p: F.validate_aout_data(d["sig"]))
    op("validate d", lambda d, p: F.validate_dout_data(d["bits"]))
    op("gen clean", lambda d, p: gen.get_clean_signal())
    op("gen nonlin", lambda d, p: gen.apply_static_nonlinearity(d["sig"], k2=.01, k3=.02))
    op("gen hd", lambda d, p: gen.apply_static_nonlinearity_hd(d["sig"], hd2_dB=-60, hd3_dB=-70))
    op("gen memory", lambda d, p: gen.apply_memory_effect(d["sig"], .01))
    op("gen quant", lambda d, p: gen.apply_quantization_noise(d["sig"], 6))
    op("gen clip", lambda d, p: gen.apply_clipping(d["sig"], 2.0))
    op("gen amtone", lambda d, p: gen.apply_am_tone(d["sig"]))
    op("gen incomplete", lambda d, p: gen.apply_incomplete_sampling(d["sig"]))
    op("gen reference", lambda d, p: gen.apply_reference_error(d["sig"]))
    op("gen ra", lambda d, p: gen.apply_ra_gain_error(d["sig"]))
    op("gen ra dyn", lambda d, p: gen.apply_ra_gain_error_dynamic(d["sig"]))
    op("gen chain", lambda d, p: gen.apply_quantization_noise(gen.apply_static_nonlinearity(gen.get_clean_signal(), k3=.01), 8))
    op("gen default", lambda d, p: gen.apply_static_nonlinearity(k3=.01))
    noisy = {
        "thermal": lambda d: gen.apply_thermal_noise(d["sig"], 1e-3),
        "jitter": lambda d: gen.apply_jitter(d["sig"], 1e-9),
        "jitter own": lambda d: gen.apply_jitter(None, 1e-9),
        "am": lambda d: gen.apply_am_noise(d["sig"], .01),
        "drift": lambda d: gen.apply_drift(d["sig"], 1e-3),
        "glitch": lambda d: gen.apply_glitch(d["sig"], .05, .1),
        "shaping": lambda d: gen.apply_noise_shaping(d["sig"], n_bits=6, order=2),
    }
    return ops, noisy
