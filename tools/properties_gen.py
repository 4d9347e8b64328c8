import json
P=[]
S="python/src/adctoolbox/"
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":[S+f for f in files],"mechanism":[{"name":n,"where":S+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
I=["inputs"];IC=["inputs","configurations"]
p("C01","SAR conversion is an exact MSB-first greedy search and reconstruction inverts it",
"For every weight vector, range and noiseless input of any array shape, the SAR model decides bits MSB first and keeps a bit exactly when the range-normalised input is at least the already kept weight plus that bit's weight; reconstruction returns the range minimum plus the span times the kept weight. Ideal weights are powers of two (optionally with one duplicated bit) over their sum plus one LSB, so with ideal or redundant ideal weights the reconstruction never exceeds an in-range input, is less than one LSB below it, saturates to all zeros / all ones outside the range, and is monotone in the input. Zero noise and zero mismatch leave codes and weights untouched, equal seeds give equal results, sampling noise is one common displacement per sample, comparator noise is fresh per bit decision, and unit-capacitor mismatch scales as one over the square root of the capacitor size; empty ranges, malformed weights or sizes and negative mismatch are refused.",
IC,"all weight vectors (binary, redundant, sub-radix, mismatched, arbitrary), ranges, inputs incl. exact decision thresholds, out-of-range inputs and batch shapes","Tests convert a few sine captures and look at ENOB; decision ties, redundancy, batch shape and saturation for arbitrary weights are a quantifier over inputs and configurations.",
["models/sar.py"],[("bit-trial loop","models/sar.py:sar_convert"),("weighted sum","models/sar.py:sar_reconstruct"),("ideal weights","models/sar.py:sar_ideal_weights"),("mismatch","models/sar.py:sar_apply_cap_mismatch")],[("v_dac","weight kept so far per sample","models/sar.py:sar_convert")])
p("C02","Capacitor-array weights follow charge redistribution for any network",
"For any list of bit, bridge and parasitic capacitors the returned weight of each bit equals the voltage that bit's capacitor would inject at the output node of the ladder by charge redistribution, and the returned total is the equivalent capacitance seen after the last stage. A bridge of zero means a direct connection, a completely empty node contributes weight zero without disturbing the others, scaling all capacitors by one factor leaves the weights unchanged and scales the total, and weights are non-negative with sum at most one (exactly one without parasitics and bridges). Lists of unequal length are rejected.",
IC,"all capacitor ladders: any length, any mix of bridges, parasitics and zero capacitors","Tests evaluate a handful of fixed ladders; the network law has to hold for every topology.",
["fundamentals/convert_cap_to_weight.py"],[("LSB to MSB ladder reduction","fundamentals/convert_cap_to_weight.py:convert_cap_to_weight")],[("c_load","capacitance seen looking towards the LSB","fundamentals/convert_cap_to_weight.py")])
p("C03","De-interleaving and interleaving are exact inverse sample routings",
"De-interleaving a record into M channels sends sample n to channel n mod M at position n div M without changing any value, and interleaving restores the original record exactly; each is the inverse of the other for every channel count and record length that is a multiple of it. Records that do not divide evenly, non-1-D records, non-2-D channel arrays and non-positive channel counts are rejected rather than truncated or padded.",
IC,"all record lengths, channel counts and value types","Tests use a few (N, M) pairs; routing bijectivity and rejection are for every pair.",
["timeinterleave/deinterleave.py"],[("channel routing","timeinterleave/deinterleave.py:deinterleave"),("inverse routing","timeinterleave/deinterleave.py:interleave")])
p("C04","Interleave mismatch is recovered and foreground correction removes it",
"For a sine sampled by M interleaved channels with arbitrary per-channel offset, gain and timing errors, the extracted offsets, gains and skews equal the injected ones, with gains relative to their mean and skews relative to their mean, for every channel count, coherent input frequency, and skews that keep neighbouring channels within half a period of each other. Correcting a record with given parameters subtracts each channel's offset, divides by its gain and re-times it by its skew, so correcting with the extracted parameters restores the mismatch-free waveform for inputs inside the channel Nyquist band, and zero mismatch is the identity.",
IC,"all channel counts, frequencies (also above Nyquist of one channel), mismatch vectors and both re-timing methods","Tests use one 2/4-channel setup; recovery must hold for every mismatch vector, sign convention and frequency.",
["timeinterleave/extract_mismatch_sine.py","timeinterleave/calibrate_foreground.py"],[("per-channel phasor","timeinterleave/extract_mismatch_sine.py:extract_mismatch_sine"),("per-channel correction","timeinterleave/calibrate_foreground.py:calibrate_foreground")])
p("C05","Predicted interleaving spurs match the real spectrum in place and level",
"For every channel count and mismatch vector, the predicted spur list contains the offset spurs at multiples of the channel rate and the gain/timing image spurs at the input frequency plus multiples of the channel rate, all folded to the first Nyquist zone and sorted by frequency. Each predicted amplitude equals the line amplitude that component really has in the two-sided spectrum of a record sampled with those mismatches, also relative to the carrier as sampled (its amplitude times the mean gain). No mismatch predicts zero-amplitude spurs.",
IC,"all channel counts, mismatch vectors, carrier amplitudes and frequencies","Tests check one or two configurations; the prediction law quantifies over all of them.",
["timeinterleave/predict_spurs.py"],[("channel-index DFT","timeinterleave/predict_spurs.py:predict_spurs")])
p("C06","Folding to the first Nyquist zone is the true alias",
"For every real frequency (negative, zero, far above the sampling rate, scalar or array) the folded frequency is the unique value between zero and half the sampling rate that differs from plus or minus the input by a multiple of the sampling rate, and the folded bin is the same map on bin indices, fractional or integer, for even and odd transform lengths. Folding is therefore idempotent, even, periodic and continuous, and frequency and bin folding agree with each other.",
I,"all frequencies/bins, sampling rates and transform lengths of both parities","Tests list about a dozen positive examples with even lengths.",
["fundamentals/frequency.py"],[("frequency folding","fundamentals/frequency.py:fold_frequency_to_nyquist"),("bin folding","fundamentals/frequency.py:fold_bin_to_nyquist")])
p("C07","Coherent frequency selection returns the nearest admissible bin",
"For every sampling rate, target frequency, record length and search radius, the returned bin is positive, coprime to the record length, odd when oddness is demanded, within the search radius of the rounded target, and no other admissible bin is strictly closer to the target; the returned frequency is exactly that bin times the bin spacing. When no admissible bin exists in the radius an error is raised instead of returning an incoherent one. Targets above Nyquist are allowed and stay above Nyquist.",
IC,"all record lengths (prime, composite, power of two, odd), targets and radii","Tests use power-of-two lengths and a few targets; coprimality and nearest choice need composite lengths and ties.",
["fundamentals/frequency.py"],[("bin search","fundamentals/frequency.py:find_coherent_frequency")])
p("C08","Spectrum metrics are exact power accounting over a partition of in-band bins",
"For every spectrum of a record, the fundamental is the strongest in-band non-DC bin, the signal is its main lobe (that bin plus and minus the side bins), noise-and-distortion is every other in-band bin outside the DC lobe, the worst spur is the strongest such bin with its lobe, and each harmonic is the lobe at its folded position; signal level, SNDR, ENOB, SFDR, each harmonic and THD are the corresponding exact power ratios. Harmonics that fold onto the fundamental or DC lobe are left out (and reported for the fundamental), harmonics sharing bins are not double counted in THD, every bin holds the record's power under the named window so that a full-scale sine reads 0 dBFS in each, and bins below a requested high-pass cutoff are ignored everywhere. Left open, the number of side bins reaches to where the leakage of an ideal tone of that height and position meets the typical in-band bin, never less than the window's own lobe nor past the band; the lean SNDR routine returns the same SNDR and ENOB as the full analysis for the same side bins.",
IC,"all spectra (any tone set, phases, record length parity), windows, side bins, harmonic counts, cutoffs, full-scale conventions and assumed signal powers","Tests analyse a few clean sine captures with wide tolerances; overlapping harmonics, band edges, odd lengths and lobes touching DC/Nyquist are a quantifier over spectra.",
["spectrum/compute_spectrum.py","spectrum/_harmonics.py","spectrum/_locate_fundamental.py","spectrum/_window.py","spectrum/_prepare_fft_input.py","spectrum/quick_sndr.py","spectrum/analyze_spectrum.py"],[("fundamental search","spectrum/_locate_fundamental.py"),("harmonic collision and dedup","spectrum/_harmonics.py:_calculate_harmonic_power"),("spur search","spectrum/_harmonics.py:_extract_highest_spur"),("signal/noise partition","spectrum/compute_spectrum.py"),("lean path","spectrum/quick_sndr.py")])
p("C09","Noise-floor estimators and noise density follow their definitions",
"For every spectrum the noise power is, by the selected method, the in-band bin count times the bias-corrected median bin, the in-band bin count times the mean of the bins between the 5th and 95th percentile ranks, the sum of in-band bins outside DC, signal and harmonic bins, the same with whole harmonic lobes excluded, or the middle of the first three; empty (zero) bins never enter the median or trimmed mean. SNR is signal over that noise, the noise floor is the signal level minus the SNR, and the density is the floor divided by the analysed bandwidth (half the sampling rate over the oversampling ratio). When nothing remains to measure, the values are reported as undefined instead of a number.",
IC,"all spectra, run counts, harmonic positions, oversampling ratios, sampling rates and methods","Tests check white-noise captures within a dB; exact rank selection, bias and exclusion need arbitrary spectra.",
["spectrum/_estimate_noise_power.py","spectrum/_exclude_bins.py","spectrum/compute_spectrum.py"],[("noise estimators","spectrum/_estimate_noise_power.py:_estimate_noise_power"),("bin exclusion","spectrum/_exclude_bins.py")])
p("C10","Spectrum metrics are invariant under changes that carry no information",
"Relative spectrum metrics (SNDR, SNR, SFDR, THD, ENOB, harmonics) do not change when a record is scaled, negated, offset by DC, when a coherent record is circularly time-shifted or time-reversed under the rectangular window, when the sampling rate is re-labelled, when runs are permuted, or when the record is passed as a row, column or transposed array or another numeric type (arrays of other than one or two dimensions are refused); stacking identical runs changes at most the median-based noise estimates. Absolute levels follow exactly: scaling the full-scale reference by g lowers dBFS levels by 20 log g, scaling the data with automatic full scale leaves them unchanged, and re-labelling the sampling rate scales the frequency axis and shifts only the density.",
["inputs","histories"],"all records and all sequences of these transformations, in any order and combination","Tests apply at most one such transform to one record; the guarantee is over all compositions.",
["spectrum/compute_spectrum.py","spectrum/_prepare_fft_input.py","spectrum/analyze_spectrum.py"],[("normalisation","spectrum/_prepare_fft_input.py"),("averaging","spectrum/_spectrum_averaging.py")])
p("C11","Averaging many captures combines them exactly as power or phasor means",
"Power averaging yields in every bin the mean of the individual runs' powers, for any number of runs. Coherent averaging aligns every run to its own fundamental phase, so captures of the same periodic waveform started at different times average to that waveform's own spectrum (fundamental at zero phase, each harmonic at its phase relative to the fundamental, whatever Nyquist zone it folds from), while components uncorrelated between runs average towards zero; empty runs are skipped, and a single capture or copies of it keep that capture's power in every bin but DC. Polar analysis reports the aligned phases, magnitudes and metrics of that coherent average.",
IC,"all sets of runs, start times, harmonic orders and Nyquist zones","Tests average a few noisy captures; alignment in every Nyquist zone and for every shift is a quantifier over inputs.",
["spectrum/_spectrum_averaging.py","spectrum/_align_spectrum_phase.py","spectrum/analyze_spectrum_polar.py"],[("power mean","spectrum/_spectrum_averaging.py:_power_average"),("phase alignment","spectrum/_align_spectrum_phase.py")])
p("C12","Oversampling analysis counts exactly the bins inside the signal band",
"For every record length and oversampling ratio the analysed band contains DC up to and including the bin at half the sampling rate over the ratio, never beyond Nyquist. The sweep over oversampling ratios reports at each ratio the signal power over the residual power inside that band (SNDR, ENOB) and over the largest residual bin in that band (SFDR), in the order the ratios were given, so SNDR never decreases and SFDR never decreases as the ratio grows. Out-of-band content never influences in-band results, and ratios that are not positive are refused.",
IC,"all record lengths, ratios (integer or not), residual spectra and orderings","Tests check a few ratios of one capture; band edges and monotonicity quantify over all ratios.",
["spectrum/_bin_ranges.py","spectrum/sweep_performance_vs_osr.py","oversampling/perfosr.py"],[("in-band count","spectrum/_bin_ranges.py:rfft_inband_bin_count"),("cumulative residual","spectrum/sweep_performance_vs_osr.py")])
p("C13","Band extraction is an exact brick-wall projection",
"For every real record (even or odd length, one or many columns) and every set of bands, band extraction keeps exactly the frequency components whose bin lies inside some band and removes all others, returning a real record of the same length. It is therefore linear, idempotent, additive over disjoint bands, and the identity for the full band.",
IC,"all records, lengths and band lists (overlapping, touching, single-bin, DC- and Nyquist-containing)","Tests extract one tone from a two-tone signal at an even length.",
["spectrum/extract_freq_components.py","oversampling/ifilter.py"],[("bin mask","spectrum/extract_freq_components.py")])
p("C14","Unit, noise and figure-of-merit conversions are exact and mutually inverse",
"Every conversion between decibels and ratios, dBm and volts or milliwatts, LSB and volts, bins and frequency, SNR and ENOB, and SNR and noise density implements its defining formula, accepts arrays elementwise, and composing a conversion with its inverse returns the original value for every argument including non-default impedance, bandwidth and oversampling. Figures of merit and limits (Walden, Schreier, thermal noise, jitter, SNR from amplitudes) follow their formulas and scaling laws: e.g. doubling jitter or frequency costs 6.02 dB, doubling capacitance gains 3.01 dB, halving power gains 3.01 dB.",
IC,"all arguments and all parameter combinations, scalar and array","Tests check default parameters at a few points.",
["fundamentals/units.py","fundamentals/snr_nsd.py","fundamentals/metrics.py"],[("formulas","fundamentals/units.py"),("noise density","fundamentals/snr_nsd.py"),("figures of merit","fundamentals/metrics.py")])
p("C15","Sine fitting recovers frequency, amplitude, phase and offset",
"For every noiseless sampled sine, coherent or not, with any amplitude, offset and phase of realistic size (up to about a million) and any record length covering at least a few periods, the fit with iterations returns its frequency, amplitude, phase and offset, the fitted waveform and a vanishing residual; columns of a 2-D record are fitted independently. The fitted waveform plus the residual is always the data, the reported RMSE is the residual's RMS, and fits respond covariantly to scaling, offset and time shift of the data. Frequency estimation in Hz is the fitted normalised frequency times the sampling rate, and refinement ends with the first step smaller than the tolerance or when the allowed iterations are used up, saying which.",
IC,"all frequencies in the first Nyquist zone, amplitudes, phases, offsets, lengths and column counts","Tests fit a few frequencies and 1-D records.",
["fundamentals/fit_sine_4param.py","fundamentals/frequency.py"],[("iterated least squares","fundamentals/fit_sine_4param.py"),("Hz estimate","fundamentals/frequency.py:estimate_frequency")])
p("C16","Foreground weight calibration recovers the true bit weights",
"For codes produced by a converter with any bit weights (redundant, mismatched, inverted, unused or duplicated bits) from sine inputs of unknown amplitude, phase and offset, calibration returns weights proportional to the true ones with positive sum, whether the frequency is supplied, searched from a starting value close to it, or (for low frequencies and properly weighted bits) found from the codes, for one or several captures sharing the weights, and with or without harmonic exclusion. The returned calibrated signal is the weighted sum of the codes, signal minus offset minus ideal sine equals the returned error for every capture, SNR and ENOB are the ratio of those two, and the refined frequency is the true one. Bits that never toggle get weight zero and do not disturb the others; a frequency outside the first Nyquist zone is rejected.",
IC,"all weight vectors, code sets, capture counts, frequencies, phases and options","Tests calibrate a handful of captures at known frequency and accept any ENOB improvement.",
["calibration/calibrate_weight_sine.py","calibration/_lstsq_solver.py","calibration/_post_process.py","calibration/_patch_rank_deficiency.py","calibration/_prepare_input.py","calibration/_scale_columns_for_conditioning.py","calibration/_estimate_frequencies.py","calibration/calibrate_weight_sine_lite.py"],[("dual-basis solve","calibration/_lstsq_solver.py"),("rank patch","calibration/_patch_rank_deficiency.py"),("assembly","calibration/_post_process.py")])
p("C17","Ramp histogram DNL/INL is exact code counting",
"For every set of output codes of a ramp, DNL of a code is its hit count over the average hit count minus one, INL is the running sum of DNL with the selected endpoint, best-fit or no line removed, and missing codes are exactly the counted codes with no hits. End codes are excluded when asked, order of samples never matters, a uniform histogram gives zero DNL and INL, repeating the record changes nothing, and codes outside the declared resolution or non-integer codes are rejected.",
IC,"all code multisets, resolutions, endpoint modes and exclusion choices","Tests use a few ideal or one-defect ramps.",
["aout/compute_inl_from_ramp.py","aout/analyze_inl_from_ramp.py"],[("histogram and cumulation","aout/compute_inl_from_ramp.py")])
p("C18","Sine histogram DNL/INL linearises the arcsine code density",
"For every set of codes of a sine capture, the code density is converted to transition levels by the cosine of the cumulative histogram, DNL is each code's normalised width with its mean removed and never below minus one, INL is its running sum, and codes outside the clipped range are not reported. The result depends only on the histogram (not on sample order, repetition of the record or a code offset), voltages are first converted to codes of the requested resolution, and an ideal quantised sine gives near-zero DNL and INL while a widened, narrowed or missing code shows up with its true size, its width being listed under the transition just below it.",
IC,"all histograms, resolutions, clip percentages, integer and voltage inputs","Tests check a few captures for bounded DNL/INL.",
["aout/compute_inl_from_sine.py","aout/analyze_inl_from_sine.py"],[("CDF linearisation","aout/compute_inl_from_sine.py")])
p("C19","Error-versus-value binning conserves samples and reports exact statistics",
"For every signal, splitting the fitting error by signal value assigns every sample to exactly one of the requested bins, the one with the nearest of the centres spread evenly over the given or inferred range, and each bin's mean and RMS error are those of precisely its samples; empty bins are reported as not-a-number and clipped edge bins are excluded as asked. The overall error equals the signal minus its fitted sine, the statistics do not depend on sample order within a bin, and a static error that is a function of the value is recovered in the bins.",
IC,"all signals, bin counts, clip percentages and ranges","Tests look at one or two signals' shapes only.",
["aout/rearrange_error_by_value.py","aout/analyze_error_by_value.py"],[("value binning","aout/rearrange_error_by_value.py")])
p("C20","Error-versus-phase analysis separates amplitude noise from phase noise",
"For every signal, splitting the fitting error by signal phase assigns each sample to the bin containing its phase, with bin mean and RMS taken over exactly its samples. The amplitude-noise and phase-noise estimates are the least-squares split of the error power into a constant part, a part following the signal's amplitude envelope and a part following its slope, so pure amplitude modulation noise is attributed to amplitude, pure jitter to phase, and additive white noise to the baseline, each with its true RMS (of a mixture, the part common to amplitude and phase counts as baseline).",
IC,"all signals, noise mixtures, bin counts and options","Tests use one noise type with loose bounds.",
["aout/rearrange_error_by_phase.py","aout/_fit_error_phase.py","aout/analyze_error_by_phase.py"],[("phase binning","aout/rearrange_error_by_phase.py"),("AM/PM fit","aout/_fit_error_phase.py")])
p("C21","Harmonic decomposition and static nonlinearity extraction are exact",
"Decomposing a record yields fundamental, harmonic and residual parts that sum to the record exactly; a record made of a sine and its harmonics on distinct lines is decomposed with every harmonic's true peak-to-peak magnitude and its phase relative to the fundamental, whatever Nyquist zone it falls in, leaving no residual, and anything orthogonal to the harmonics stays in the residual. For a sine passed through a polynomial of second and third order, the static fit recovers the polynomial coefficients relative to the fitted sine and unit linear gain, and the transfer curve.",
IC,"all harmonic sets, orders, frequencies, amplitudes, phases and polynomial coefficients","Tests decompose a few signals and check coarse magnitudes.",
["aout/decompose_harmonic_error.py","aout/_fit_sine_harmonics.py","aout/fit_static_nonlin.py"],[("harmonic least squares","aout/_fit_sine_harmonics.py"),("decomposition","aout/decompose_harmonic_error.py"),("polynomial fit","aout/fit_static_nonlin.py")])
p("C22","Digital-output diagnostics are exact statistics of the code matrix",
"For every matrix of bit decisions and weights whose tails sum to a nonzero value: bit activity is the percentage of ones per bit; the overflow report gives, for each bit position, the minimum, maximum and percentages at or beyond both ends of the normalised residue formed by that bit and all lower ones; the radix report gives each weight's ratio to the next one, and the effective resolution of the significant weights. The residual plots and the bit-count sweep use exactly the partial weighted sums of the leading bits; permuting samples changes nothing.",
IC,"all code matrices and weight vectors","Tests check a few matrices and mostly that plots are drawn.",
["dout/analyze_bit_activity.py","dout/analyze_overflow.py","dout/analyze_weight_radix.py","dout/analyze_enob_sweep.py","dout/plot_residual_scatter.py"],[("activity","dout/analyze_bit_activity.py"),("residue ranges","dout/analyze_overflow.py"),("radix","dout/analyze_weight_radix.py"),("residuals","dout/plot_residual_scatter.py")])
p("C23","Signal generator impairments implement their transfer functions",
"Each deterministic impairment of the signal generator is the stated function of its input: uniform floor quantisation with saturation at the range ends, polynomial distortion applied to the AC part (harmonic-level form producing the requested harmonic levels), one-sample memory, incomplete settling, gain and reference errors, amplitude tone, clipping and drift. With zero strength every impairment that does not itself quantise is the identity, impairments never modify the array they are given, the clean signal is used when none is given, and chaining impairments equals composing their functions; random impairments have the stated RMS, and a strength that is not given has its documented value.",
["inputs","configurations","histories"],"all parameters, all input signals and all chains of impairments","Tests apply each impairment once with default parameters.",
["siggen/nonidealities.py"],[("impairments","siggen/nonidealities.py:ADC_Signal_Generator")])
p("C24","Noise shaping and noise-transfer analysis obey the same transfer function",
"Shaped noise produced by the generator is white quantisation noise filtered by (1 - z^-1) to the requested order, or by the caller's transfer function (which takes precedence over the order), added to the signal, and unsupported orders are rejected. Noise-transfer analysis returns the in-band noise suppression of a transfer function over the requested band relative to a flat one: it is zero-order consistent (flat transfer gives the bandwidth ratio alone), additive in dB under gain, and improves with order and narrower bands as the transfer function dictates.",
IC,"all orders, coefficient lists and bands","Tests check one order and band.",
["siggen/nonidealities.py","oversampling/ntf_analyzer.py","oversampling/ntfperf.py"],[("shaping filter","siggen/nonidealities.py:apply_noise_shaping"),("in-band integral","oversampling/ntf_analyzer.py")])
p("C25","Skill installation only replaces what it was told to and reports truthfully",
"For every sequence of install, forced install, link install, status and manual edits on a destination directory: without force nothing that already exists is modified and the call is refused; with force exactly the requested skills are replaced and end up identical to the bundled ones (a copy, or a link in editable mode), replacing a link never touches what it points to, and everything else in the destination is untouched. Unknown skill names are refused before anything is written, a skill requested several times or through aliases is installed once, and nothing is ever written outside the destination. Status reports installed, mode and in-sync truthfully after any history.",
["histories","configurations"],"all histories of installs, forced installs, link installs, partial edits, deletions and status queries","Tests run single install or status steps from an empty directory.",
["skill_cli.py"],[("install","skill_cli.py:install_bundled_skills"),("status","skill_cli.py:skill_status"),("name resolution","skill_cli.py:resolve_skill_names")],[("destination entry","absent, copy, modified copy, link, foreign link or plain file per skill","skill_cli.py")],"destination directory contents and exit status")
p("C26","Copying the examples never overwrites and copies everything",
"For every destination name and prior filesystem content, copying the examples either creates the destination with exactly the shipped example files (no byte-code caches) and reports success, or, if anything of that name already exists, exits with an error and changes nothing. A copy that could not read a shipped file is never reported as a success, a second copy after a successful one is refused, removing the destination makes it possible again, and the shipped examples are never modified.",
["histories","inputs"],"all histories of copies, manual edits, removals and pre-existing files, directories or links","Tests run the command once into a fresh directory.",
["cli.py"],[("copy","cli.py:copy_examples")],[("destination","absent, complete copy, foreign file/dir/link","cli.py")],"working directory contents and exit status")
p("C27","Input validation rejects every malformed record and accepts every sound one",
"Analog records are accepted exactly when they are non-empty, numeric, real, finite, at most 2-D, long enough and not constant; digital records exactly when they are 2-D, non-empty, long enough and contain only zeros and ones. Rejected records raise a value error, accepted ones are not modified, suspicious but legal records (nearly constant, stuck bits, fewer samples than bits) only warn, and the verdict does not depend on memory layout or numeric type.",
I,"all arrays: shapes, types, positions of bad values, lengths around the limit","Tests try one example per rule; combinations, positions and types are unbounded.",
["fundamentals/validate.py"],[("analog rules","fundamentals/validate.py:validate_aout_data"),("digital rules","fundamentals/validate.py:validate_dout_data")])
p("C28","Analyses are pure: no call changes its inputs or any later result",
"For every history of calls to the public analysis functions, no call modifies the arrays it is given, and each call's numeric result depends only on its own arguments: it is the same in any order, repeated, in a fresh process, with plotting on or off, and independently of the global random state, which only the random impairments consume and which alone determines them. With plotting off, calls leave the caller's figures as they are and open none; no call closes a figure of the caller or changes global numeric or plot settings; generator objects can be reused without carrying state over, and editing an array or a returned result in place never shows up in later answers other than through that array.",
["histories","schedules"],"all sequences of public calls with shared inputs","Tests call each function alone in a fresh process.",
["spectrum/analyze_spectrum.py","aout/__init__.py","dout/__init__.py","timeinterleave/__init__.py","siggen/nonidealities.py","calibration/calibrate_weight_sine.py"],[("call/return boundary","__init__.py")],[("shared arrays","inputs reused across calls","__init__.py")])
p("C29","Error statistics (distribution, autocorrelation, phase plane) are exact",
"The error autocorrelation is the lag-by-lag mean product of the error, symmetric in the lag and normalised to one at lag zero when asked; the error distribution's mean, spread and density refer to the error in LSB of the stated range and resolution, with the density non-negative and integrating to about one; the reference Gaussian has that mean and spread; the error and envelope spectra are the spectra of the error and of its analytic magnitude. Phase-plane analysis uses the lag it reports (by default as near a quarter turn as possible) and flags as outliers exactly the points beyond the stated robust threshold; the error phase plane plots the record minus its fitted sine with the least-squares trend over the central 96 % of levels and the gap between its rising and falling halves, and every error analysis hands its fit options on and returns the fit's diagnostics when asked.",
IC,"all error sequences, lags, resolutions and thresholds","Tests look at one noise record each.",
["aout/analyze_error_autocorr.py","aout/analyze_error_pdf.py","aout/analyze_phase_plane.py","aout/analyze_error_phase_plane.py"],[("autocorrelation","aout/analyze_error_autocorr.py"),("distribution","aout/analyze_error_pdf.py"),("phase plane","aout/analyze_phase_plane.py")])
p("C30","Fractional delays shift band-limited signals by exactly the asked amount",
"Delaying a periodic record by a whole number of samples with the transform-based delay is an exact circular shift, any fractional delay moves each in-band tone by exactly that time without changing its amplitude, and delays compose additively and invert. The tap-based delay with a whole number of samples is an exact shift with zero fill, reproduces polynomials up to its order exactly away from the edges for any fractional delay, always returns as many samples as it was given, and rejects even tap counts.",
IC,"all records, lengths, delays (negative, zero, large) and tap counts","Tests delay one sine by a few values.",
["timeinterleave/fractional_delay.py"],[("transform delay","timeinterleave/fractional_delay.py:fractional_delay_fft"),("Lagrange delay","timeinterleave/fractional_delay.py:fractional_delay_farrow")])
p("C31","Historical names answer exactly as their present-day counterparts",
"Every historical entry point (old function names, old option names, old tuple-shaped answers, old metric keys) gives the very numbers its present-day counterpart gives for the same data, in the historical order and under both the old and the new keys. An old option means the same as the new one; where both are given the documented one wins, and where neither is given the present-day default applies. The historical autocorrelation of a ready-made error signal is that signal's own.",
IC,"all historical names, combinations of old and new options, and data","Tests only check that the historical names run.",
["aout/__init__.py","dout/__init__.py","common.py","oversampling/perfosr.py"],[("option and result translation","aout/__init__.py"),("option and result translation","dout/__init__.py"),("old import path","common.py")])
p("C32","Plots show the numbers returned, on the axes asked for and nowhere else",
"A plotted analysis draws on the axes it is given, or on the current one when none is given: no other axes or figure of the user changes or is closed, curves already on the axes stay unless the analysis splits it into panels of its own, and a call told not to plot draws nothing. The curves, bars, markers and printed figures of merit are the values the same call returns, each against its own abscissa. A dashboard brings its own figure with every panel filled from the analyses of the data it was given, writes it to the path asked for (creating directories), and leaves it open unless it was saved without being shown.",
["inputs","histories"],"all analyses, records and sequences of plotting calls over several figures, axes and selections","Tests check that plotting does not raise and look at single fresh figures; interference between calls and agreement of what is drawn with what is returned are for every sequence and record.",
["spectrum/plot_spectrum.py","spectrum/plot_spectrum_virtuoso.py","spectrum/plot_spectrum_polar.py","aout/plot_dnl_inl.py","aout/plot_rearranged_error_by_value.py","aout/plot_rearranged_error_by_phase.py","aout/plot_decomposition_time.py","aout/plot_decomposition_polar.py","dout/analyze_overflow.py","toolset/generate_aout_dashboard.py","toolset/generate_dout_dashboard.py"],[("spectrum panel","spectrum/plot_spectrum.py:plot_spectrum"),("axes splitting","aout/plot_dnl_inl.py:plot_dnl_inl"),("dashboards","toolset/generate_aout_dashboard.py:generate_aout_dashboard")],None,"matplotlib figures and axes, returned values, saved files")
p("C33","Every analysis of one record gives the same account of it",
"For every record made of a sine, harmonics, other tones and an offset, and after any sequence of scaling, negating, offsetting, adding tones and cutting to a band, all analyses agree on what it contains: the sine fit, the spectrum, the lean SNDR routine, the harmonic decomposition and the error analyses by value, by phase, by distribution, by autocorrelation and by spectrum report one signal amplitude and offset, one error signal and one error power. That error power is the sum of the harmonics and of the decomposition's rest, SNDR from the spectrum is that of the fit's amplitude over its error, harmonic and spur levels are those of the tones, and the power inside a band plus that outside it is the whole.",
["inputs","histories"],"all records and edit histories, record lengths, bins and harmonic counts","Tests check each analysis by itself against its own numbers; agreement between them must hold for every record.",
["spectrum/compute_spectrum.py","spectrum/quick_sndr.py","spectrum/extract_freq_components.py","fundamentals/fit_sine_4param.py","aout/decompose_harmonic_error.py","aout/rearrange_error_by_value.py","aout/rearrange_error_by_phase.py","aout/analyze_error_autocorr.py","aout/analyze_error_pdf.py","aout/analyze_error_spectrum.py"],[("fit and residual","fundamentals/fit_sine_4param.py:fit_sine_4param"),("power accounting","spectrum/compute_spectrum.py:compute_spectrum"),("harmonic split","aout/decompose_harmonic_error.py:decompose_harmonic_error")],None,"returned metrics, error signals and parameters")
p("C34","Answers depend on the numbers given, not on how they are carried",
"For every record of whole numbers and every analysis, model and generator function, the answer is the same whether the numbers arrive as double precision or as any signed or unsigned integer type that holds them, up to and including values at the limits of that type. It is the same for contiguous, strided, reversed, transposed, windowed, byte-swapped and read-only arrays, and for plain lists or tuples where sequences are accepted; a record is accepted or refused for what it says, never for how it is stored.",
["inputs","histories"],"all records, integer types, memory layouts and sequences of re-carrying them, for every public function taking samples, codes, bits or weights","Tests feed double-precision contiguous arrays; overflow in narrow integer types and layout assumptions show only for particular values, types and strides.",
["spectrum/_prepare_fft_input.py","siggen/nonidealities.py","aout/rearrange_error_by_value.py","aout/analyze_error_pdf.py","fundamentals/fit_sine_4param.py","dout/analyze_overflow.py","models/sar.py","timeinterleave/deinterleave.py"],[("spectrum input","spectrum/_prepare_fft_input.py:_prepare_fft_input"),("generator input","siggen/nonidealities.py:ADC_Signal_Generator._resolve_signal"),("value bins","aout/rearrange_error_by_value.py:rearrange_error_by_value")],None,"returned values of every public function")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
