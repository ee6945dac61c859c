"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "solver-based path-exhaustive symbolic execution of the real Python code (z3), counterexamples replayed on unpatched code"
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, note, level="other", observe=None):
  PROPS.append(dict(
      p={"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}},
      note=note, level=level))


SM, MM, DSP, UD, UI = ("sample/sms/sm.py", "sample/sms/mm.py", "sample/sms/dsp.py",
                       "sample/utils/dsp.py", "sample/utils/__init__.py")

P("C01", "Frame-by-frame peak-to-track association",
  "When the sinusoidal tracker receives a frame, peaks are served in decreasing order of magnitude; each takes, among the active tracks not yet continued in that frame, the one whose last frequency is closest, and continues it exactly when the distance is strictly smaller than offset + slope * peak frequency. A continued track gains exactly that peak's frequency, magnitude and phase, every track continues with at most one peak and every peak continues at most one track. Tracks with no peak end at that frame, with their history unaltered.",
  ["inputs", "histories"], "every content of the active-track list and every frame of peaks (real-valued frequencies, magnitudes, phases, any order), and every value of the deviation offset and slope",
  "tests run the tracker on one recording and compare sizes; which peak wins a contested track, ties in distance, and threshold equality are never reached",
  [SM], [("SineTracker.__call__", SM), ("min_key", SM), ("SineTracker.df", SM)],
  "one inductive frame step from an arbitrary tracker state; <=3 active tracks and <=3 peaks, distinct peak magnitudes")

P("C02", "Track capacity, birth and conservation of peaks",
  "The tracker never has more active tracks than the configured maximum. Every active or saved track starts at the frame of its first peak and holds one frequency, magnitude and phase per consecutive frame up to its end, and every peak presented belongs to at most one track. A peak that continues no track starts a new one (in the order given) unless the maximum number of tracks is active.",
  ["inputs", "histories"], "every history of frames (any number of peaks per frame, any values) and every maximum number of tracks",
  "tests only look at one fixed recording, in which the limit is never hit; interplay of ends, births and the limit across frames needs every history",
  [SM], [("SineTracker.__call__", SM), ("SineTracker.deactivate", SM), ("SineTracker.reset", SM)],
  "whole histories from reset: <=3 frames of <=2 peaks plus empty frames, max_n_sines 0..3; all values symbolic")

P("C03", "Acceptance criteria for tracks",
  "A track that ends is kept if and only if it is at least as long as the minimum duration (in frames, rounded up, never below 2) and, for modal tracking, its mean frequency lies within the configured bounds (inclusive, either may be None), the least-squares slope of its magnitude over time is not increasing, and the fitted magnitude at its onset is not below the peak threshold. When the audio is analysed in reverse, slope and onset are judged in the original time direction. Active tracks are reported under exactly the same criteria.",
  ["inputs", "configurations"], "every track content and every configuration (bounds, threshold, minimum duration, direction)",
  "tests count the tracks of a single sound; boundary equality and the reverse direction of slope and intercept are not separated",
  [SM, MM], [("ModalTracker.track_ok", MM), ("SineTracker.track_ok", SM), ("SineTracker.min_sine_len", SM), ("SineTracker.all_tracks_", SM)],
  "tracks of 1..4 frames with symbolic frequencies/magnitudes and symbolic thresholds; LinearRegression replaced by its exact least-squares normal equations")

P("C04", "Merging of interrupted tracks keeps the time alignment",
  "When an accepted track is joined to an earlier one, the earlier track must have ended strictly before (at least one frame of gap) the new one starts, be the closest in frequency under the configured strategy, and be closer than the deviation threshold at the new track's first frequency; otherwise the track is saved on its own. After joining, the sample for frame k of either track is still found at frame k, and exactly the missing frames are marked as not-a-number. No other saved track changes.",
  ["inputs", "histories", "configurations"], "every set of saved tracks, every newly ended track, both merge strategies",
  "tests merge tracks of one recording and never check the frame alignment of the merged arrays",
  [MM], [("ModalTracker.deactivate", MM), ("_track_diff_avg", MM), ("_track_diff_single", MM)],
  "<=2 saved tracks of 1..2 frames, new track of 2 frames, symbolic integer start frames within 8 frames, symbolic values")

P("C05", "Strip time removes exactly the late tracks",
  "With a strip time set, the tracks reported are exactly the accepted ones whose onset is not later than the strip time (in frames, rounded up); without it, all of them are reported. When the audio is analysed in reverse, the onset is the original onset, i.e. the frame at which the reversed track ends, counted from the end of the analysis.",
  ["inputs", "configurations"], "every set of tracks, every strip time, sample rate and hop, both directions",
  "tests use one strip time on one recording",
  [MM], [("ModalTracker.all_tracks_", MM), ("ModalTracker.strip_n", MM)],
  "<=3 tracks with symbolic start frames and lengths 2..3, symbolic strip time and frame rate")

P("C06", "Peak detection returns exactly the strict local maxima",
  "The peaks of a magnitude spectrum are exactly the interior samples strictly greater than both neighbours and, when a threshold is given, strictly greater than it; they are returned as increasing indices. The first and the last sample are never peaks.",
  ["inputs"], "every spectrum (including plateaus and equal values) and every threshold, including none",
  "tests check a handful of fixed spectra; plateaus, edges and threshold equality need every ordering of the samples",
  [DSP], [("peak_detect", DSP)], "spectra of 1..8 samples, all values symbolic")

P("C07", "Parabolic refinement stays within half a bin and above the sample",
  "The refined position and magnitude of a detected peak are those of the vertex of the parabola through the peak and its two neighbours: the position differs from the sample index by less than half a bin and the magnitude is never smaller than the sample. The phase is the linear interpolation of the phase spectrum at the refined position.",
  ["inputs"], "every magnitude and phase spectrum",
  "tests compare a few recorded values",
  [DSP], [("peak_refine", DSP), ("peak_detect_interp", DSP)], "spectra of 3..7 samples, all values symbolic; exact real arithmetic")

P("C08", "Framing covers the signal exactly",
  "The number of analysis windows is the number of positions k*hop at which a whole window fits in the signal (zero if the signal is shorter than a window), and window k is exactly samples k*hop .. k*hop+size-1 of the signal. With padding, the first window is centred on the first sample, the original samples appear unaltered between zeros, and every sample lies within the padded signal.",
  ["inputs", "configurations"], "every signal, window size and hop size, padded or not",
  "tests use a few sizes; short signals, hop larger than the window and non-dividing hops need every combination",
  [UD, SM], [("n_windows", UD), ("overlapping_windows", UD), ("SinusoidalModel.pad_input", SM), ("SinusoidalModel.time_frames", SM)],
  "window count: unbounded integers; contents: signals of 0..9 symbolic samples, windows 1..5, hops 1..4")

P("C09", "Zero-phase DFT frames",
  "For each frame the transform is applied to the windowed frame rotated so that its centre sample is at index zero, with zeros in between, whenever the window is not longer than the FFT. The magnitude is 20*log10 of the absolute spectrum, floored at machine epsilon so it is always finite, and the frame is not modified.",
  ["inputs", "configurations"], "every frame and window content, odd and even window sizes, and FFT sizes not smaller than the window",
  "tests compare a single recording's spectrum; odd/even sizes and silent frames are not covered",
  [DSP], [("dft", DSP), ("SinusoidalModel.dft_frames", SM), ("a2db.floorless", UD)],
  "windows of 2..6 samples, FFT sizes up to 8; the FFT itself is replaced by the exact DFT sum")

P("C10", "Tracks are placed on the original time axis",
  "Before fitting, a track loses exactly its missing (not-a-number) frames, its magnitudes are raised by 20*log10(2) dB and frame k of the analysis is placed at the centre of its analysis window, (start_frame + k) * hop / fs plus half a window unless the input was padded. When audio is analysed in reverse, times are mirrored about the signal duration. The tracked data itself is not modified.",
  ["inputs", "configurations"], "every track (with any gaps), start frame, sample rate, hop, window size, padding and direction",
  "tests never look at the time axis of a track with gaps or in reverse",
  ["sample/sample.py"], [("SAMPLE._preprocess_track", "sample/sample.py")],
  "tracks of 1..4 frames with every gap pattern; symbolic start frame, sample rate, hop and signal length")

P("C11", "Hinge regression is well posed and evaluates the hinge",
  "For any data with at least two samples the default starting point of the hinge fit lies within the default bounds, each lower bound is strictly smaller than its upper bound, and the knee bounds lie within the data range unless it is a single point. The fitted model evaluates to k*min(x, a) + q with the coefficients returned by the optimiser. Residuals are predictions minus observations.",
  ["inputs"], "every data set with two or more samples and every linear-regression slope and intercept, including zero slope and constant data",
  "tests fit smooth decays only; zero slopes, flat data and coinciding abscissae need every data set",
  ["sample/hinge.py"], [("HingeRegression._default_bounds", "sample/hinge.py"), ("HingeRegression._default_coeffs_init", "sample/hinge.py"), ("HingeRegression.fit", "sample/hinge.py"), ("hinge_function", "sample/hinge.py")],
  "2..4 samples, symbolic data; least squares stands for an arbitrary point within the bounds")

P("C12", "Modal parameters derive from the fitted tracks",
  "After fitting, the parameter matrix has one column per track (in track order) with the reduced frequency, the decay -40*log10(e)/slope and the linear amplitude of the intercept, and columns with non-finite entries are dropped while the others are kept unaltered. With no tracks the matrix is empty with the right number of rows. Learned frequencies, decays and amplitudes are rows of that matrix, and energies are decay*amplitude^2/4.",
  ["inputs", "configurations"], "every list of tracks and every slope and intercept returned by the regressor, including zero slope",
  "tests check one sound with regular modes; degenerate slopes, empty results and mixes of them are not reached",
  ["sample/sample.py"], [("SAMPLE.fit", "sample/sample.py"), ("SAMPLE._fit_track", "sample/sample.py"), ("SAMPLE._valid_params_", "sample/sample.py"), ("modal_energy", "sample/sample.py")],
  "0..3 tracks; symbolic frequencies; symbolic slope (any sign, zero, non-finite) and intercept")

P("C13", "Mode ordering, selection and export are consistent",
  "Modes are ordered by the requested feature (energies by default, decreasing by default); prediction uses exactly the first n of that order (n requested, or the configured maximum, or all) with each mode keeping its own frequency, decay, amplitude and phase. The exported SDT dictionary lists all modes in the same order with matching freqs, decays and gains, nModes equal to their number, activeModes never above it nor above the configured maximum, and uniform weights summing to one.",
  ["inputs", "configurations"], "every parameter matrix including the empty one, every order feature and direction, every number of modes",
  "tests use one fitted model, default order, no phases",
  ["sample/sample.py"], [("SAMPLE.mode_argsort_", "sample/sample.py"), ("SAMPLE.predict", "sample/sample.py"), ("SAMPLE.sdt_params_", "sample/sample.py")],
  "0..3 modes, symbolic parameters, all orders and directions")

P("C14", "Additive synthesis is the sum of damped cosines",
  "The synthesised signal at time t is the sum over modes of amplitude * exp(-2t/decay) * cos(2*pi*f*t + phase), or the complex exponential when analytic, with phase zero when unspecified. Each parameter belongs to the mode at the same position, so permuting the modes (with all their parameters) or splitting them into groups and adding gives the same signal.",
  ["inputs"], "every time axis and every set of modes",
  "tests compare shapes and a few numeric cases",
  ["sample/sample.py"], [("additive_synth", "sample/sample.py"), ("expi", UD)],
  "1..3 modes, 1..3 time instants; cos/sin/exp are uninterpreted functions with exact argument matching")

P("C15", "Beat model: amplitude and frequency modulation match the sum of partials",
  "For two partials the amplitude modulation equals the modulus of the sum of the two complex partials, the instantaneous frequency equals the derivative of the phase of that sum, and the initial phase is that of the sum at time zero. This holds for constant amplitudes and for exponentially decaying ones, whose derivative must match the function.",
  ["inputs"], "every pair of amplitudes, frequencies, decays and phases and every time instant at which the sum does not vanish",
  "tests compare numerically on one parameter set",
  ["sample/beatsdrop/__init__.py"], [("Beat._define_am", "sample/beatsdrop/__init__.py"), ("Beat._define_fm", "sample/beatsdrop/__init__.py"), ("ExponentialDecay", "sample/beatsdrop/__init__.py")],
  "1..2 time instants, symbolic parameters; trigonometric and exponential values constrained by their exact identities")

P("C16", "Beat regression starts from a strictly feasible point or says so",
  "The bounds of a beat regression never exclude the observed data range: amplitude bounds contain the observed linear amplitudes and, unless the track has a constant amplitude, both initial amplitudes, are non-negative and ordered; frequency bounds contain the observed frequencies and both initial frequencies; decay bounds are positive; phase bounds are one turn around their starting value. The optimiser is started only from a point strictly inside the bounds, otherwise a ValueError is raised naming the offending parameters.",
  ["inputs"], "every amplitude and frequency track with two or more samples and every initial parameter octuple",
  "tests fit two synthetic beats",
  ["sample/beatsdrop/regression.py"], [("BeatRegression._default_bounds", "sample/beatsdrop/regression.py"), ("BeatRegression.fit", "sample/beatsdrop/regression.py")],
  "tracks of 2..3 (4 thorough) samples, both regressors, symbolic data and initial parameters; db2a is an uninterpreted positive monotone function; the optimiser is a stand-in")

P("C17", "Disambiguation and sorting keep parameters associated",
  "Disambiguating a fitted beat changes at most which partial gets which frequency-phase pair: the multiset of frequencies and phases is preserved, each frequency keeps its phase, amplitudes keep their decays, and the result is the alternative with the smaller loss. Sorting the two partials by energy yields the requested order and moves all four parameters of a partial together.",
  ["inputs"], "every fitted parameter octuple and every loss outcome",
  "tests check one octuple",
  ["sample/beatsdrop/regression.py"], [("DualBeatRegression.fit", "sample/beatsdrop/regression.py"), ("sort_params", "sample/beatsdrop/regression.py")],
  "all eight parameters and loss values symbolic")

P("C18", "A beat is replaced by two partials exactly when decided",
  "For every track, the outcome is either the single-partial parameters with phase zero or the two partials of the fitted beat, each with its own frequency, decay, amplitude and phase. The default decision is for a beat exactly when both amplitudes and the frequency difference exceed, in absolute value, the threshold times machine epsilon. Decisions are stored at the index of the track.",
  ["inputs", "configurations"], "every fitted octuple, every single-partial triplet, threshold and track index",
  "tests check one beating sound",
  ["sample/beatsdrop/decision.py", "sample/beatsdrop/sample.py"], [("BeatDecisor.track_params", "sample/beatsdrop/decision.py"), ("AlmostNotABeatDecisor.decide_beat", "sample/beatsdrop/decision.py"), ("SAMPLEBeatsDROP._fit_track", "sample/beatsdrop/sample.py")],
  "symbolic octuple, triplet and threshold; 0..3 tracks")

P("C19", "Parallel fitting gives the serial result under every schedule",
  "Fitting tracks through a process pool yields the same results in the same order as serial fitting, whatever order the jobs complete in; reported progress never decreases and never exceeds the number of jobs. When fitting ends or fails, the model's own storage objects are back in place, and after success they hold what the workers stored.",
  ["schedules", "fault_sequences"], "every completion order and timing of the jobs, and a failure of any job",
  "tests run a pool once; completion order and failures are up to the operating system",
  ["sample/_training.py"], [("_progress_starmap", "sample/_training.py"), ("sample_training_context", "sample/_training.py"), ("_wrap_as_managed", "sample/_training.py"), ("FitArgs.starmap_progress", "sample/_training.py")],
  "<=3 jobs, every readiness schedule over <=4 polls (symbolic booleans), symbolic results, failure of any job; pool and manager are stand-ins")

P("C20", "Optional storage stores only when enabled, at the right place",
  "Storing a value always returns that value; nothing is kept unless saving is enabled. Appended values appear in order of arrival; values stored at an index appear at exactly that index, leaving other stored values unchanged and absent positions None, in any order of arrival. Resetting forgets everything, and a retrieved deep copy of the state is independent of the storage.",
  ["inputs", "histories"], "every sequence of store operations with any keys and indices",
  "tests store once or twice in increasing order",
  ["sample/utils/learn.py"], [("OptionalStorage.append", "sample/utils/learn.py"), ("OptionalStorage.get_state", "sample/utils/learn.py"), ("OptionalStorage.reset", "sample/utils/learn.py")],
  "sequences of 3 (4 thorough) operations over two names and indices 0..2, including toggling and resetting; symbolic values")

P("C21", "Output buffers: same result, same buffer, inputs untouched",
  "Every numeric function that accepts an output buffer returns, for floating-point inputs, the same values whether or not a buffer is given, returns the buffer it was given with those values in it, gives the same values when the buffer is the input itself, and does not modify its inputs otherwise. A scalar input gives a scalar result.",
  ["inputs", "configurations"], "every input value and every function accepting an output buffer, all variants",
  "tests call functions without a buffer or on one grid of values",
  [UD, UI, "sample/psycho.py", "sample/hinge.py", "sample/sample.py"], [("numpy_out", UI), ("function_with_variants", UI), ("a_weighting", "sample/psycho.py")],
  "arrays of 2 symbolic values and scalars; every buffer-accepting function found in the package")

P("C22", "Unit and psychoacoustic scale conversions are inverse and increasing",
  "Decibel to amplitude and back, Hertz to mel, Bark and Cams and back, and FFT bin to frequency and back each return the original value over their domain, for every named variant with an inverse, and all of these scales, and every bandwidth definition, are strictly increasing for non-negative frequencies. Reference points hold: 0 dB is amplitude 1, 0 mel is 0 Hz, A-weighting at 1 kHz is 0 dB.",
  ["inputs", "configurations"], "every value in the domain of each scale, every variant",
  "tests sample a grid of frequencies with a tolerance",
  ["sample/psycho.py", UD], [("hz2mel/mel2hz", "sample/psycho.py"), ("hz2bark/bark2hz", "sample/psycho.py"), ("hz2cams/cams2hz", "sample/psycho.py"), ("db2a/a2db", UD), ("f2bin/bin2f", UD)],
  "one or two symbolic values over the whole domain; log/exp/arctan/arcsinh uninterpreted with inverse and monotonicity axioms")

P("C23", "Strided cochleagram is the decimated full cochleagram",
  "Convolving an impulse-response bank with a stride gives, on every filter, every stride-th sample of the full aligned convolution, starting from the first, for real and complex banks. In the full cochleagram each filter's output is the full convolution delayed so that all leading times are aligned.",
  ["inputs", "configurations"], "every signal, every bank of impulse responses (any lengths and delays) and every stride",
  "tests check one filterbank with a few strides on one signal",
  ["sample/psycho.py", UD], [("PrecomputedIRBank.convolve", "sample/psycho.py"), ("strided_convolution", UD), ("strided_convolution_complex_kernel", UD)],
  "1..2 (3 thorough) filters of 1..3 taps with delays 0..3, signals of 1..4 (6) samples, strides 1..4; all samples and taps symbolic")

P("C24", "Triangular filterbanks are partitions with unit peaks",
  "Each triangular mel filter is zero outside its corner frequencies, one at its centre, linear in between and never outside [0, 1]; without a bandwidth function adjacent filters overlap so that their values sum to one between the first and the last centre. Centre frequencies are equally spaced on the transformed scale.",
  ["inputs", "configurations"], "every frequency axis, every set of corner frequencies, every bandwidth function",
  "tests check one configuration by shape",
  ["sample/psycho.py"], [("mel_triangular_filterbank", "sample/psycho.py"), ("stft2mel", "sample/psycho.py")],
  "3..5 symbolic increasing corners, 1..2 symbolic evaluation frequencies")

P("C25", "Spectral losses are distances",
  "The lp distance, and the linear-log and multiscale spectral losses built on it, are non-negative, symmetric in their arguments and zero for identical signals. The log part floors both spectra at the given level, so silence against silence costs nothing. The multiscale loss is the sum of the single-scale losses however it is scheduled.",
  ["inputs", "configurations", "schedules"], "every pair of spectra, every exponent 1 or 2, every floor and weight, serial or pooled",
  "tests check one pair of sounds",
  ["sample/evaluation/metrics.py"], [("lp_distance", "sample/evaluation/metrics.py"), ("lin_log_spectral_loss", "sample/evaluation/metrics.py"), ("MultiScaleSpectralLoss", "sample/evaluation/metrics.py")],
  "spectra of 2 symbolic bins (the STFT is an arbitrary function of its signal), p in {1,2}; 1..3 scales")

P("C26", "Random beat generator respects its ranges",
  "For every draw of the random generator, the beat frequency difference lies in absolute value within the requested range, decays are not below their minimum, amplitudes are non-negative and sum to the sinusoidal amplitude, and the sinusoidal and noise amplitudes sum to one with the requested ratio. With only-beat mode the third amplitude is zero, and the third partial lies within the requested Bark distance of the first. All frequencies lie within the frequency limits when the ranges leave room for it.",
  ["inputs", "configurations"], "every outcome of the random number generator and every valid range",
  "tests draw a few seeds",
  ["sample/evaluation/random.py"], [("BeatsGenerator.freqs", "sample/evaluation/random.py"), ("BeatsGenerator.beta_twosides", "sample/evaluation/random.py"), ("BeatsGenerator.amps", "sample/evaluation/random.py"), ("BeatsGenerator.decays", "sample/evaluation/random.py")],
  "one draw; every random number symbolic within its support; symbolic ranges")

P("C27", "Onset selection: local maxima, masks and positions",
  "Local maxima are exactly the samples not exceeded within the radius, excluding the borders, and with conjunction enabled the result is and-ed into the given mask. Every selected onset is such a local maximum, is not below the local average plus the threshold and is not below the decaying threshold of the past; onset positions lie within the signal.",
  ["inputs", "configurations"], "every detection signal, radius, multiplier, feedback coefficient and threshold",
  "tests check one synthetic click train",
  [UD], [("local_maxima", UD), ("onset_selection", UD), ("onset_detection", UD), ("spectral_flux_from_tf", UD)],
  "signals of 3..7 symbolic samples, radius 1..2")

P("C28", "Periodogram band limits and autocorrelogram",
  "The Lomb-Scargle spectrum has one value per FFT frequency from zero to Nyquist at k*fs/nfft; bins below the high-pass or at and above the low-pass corner (rounded up to a bin) are zero and the others are the periodogram at exactly that frequency. The autocorrelogram has the requested length, and a one-sided power spectrum gives the inverse transform of the power.",
  ["inputs", "configurations"], "every signal, sampling times, FFT size, sample rate and band limits",
  "tests check one band",
  [UD], [("lombscargle_as_fft", UD), ("f2bin", UD), ("fft2autocorrelogram", UD), ("lombscargle_autocorrelogram", UD)],
  "FFT sizes 4..8, symbolic band limits and sample rate; the periodogram is an uninterpreted function of frequency")

P("C29", "Dichotomic search keeps the bracket",
  "For a continuous function with opposite signs at the two limits, whichever is larger, the dichotomic search returns a point between the limits whose distance from some sign change is at most the interval width over two to the number of steps plus one, stopping early only on an exact zero. It raises ValueError when the signs agree.",
  ["inputs"], "every function (any values at the points probed) and every pair of limits in either order",
  "tests check two functions",
  [UD], [("dychotomic_zero_crossing", UD)], "up to 4 steps; function values at probed points are arbitrary symbolic reals")

P("C30", "GUI trim region is always a valid, non-empty slice",
  "Whatever the sequence of trim changes by entry (seconds) or by click (start or stop), the trim region stays within the audio with 0 <= start < stop <= length, changing one side never moves the other, and a valid requested value is used as is. A click changes the side nearer to the press position; pressing or releasing outside of the plot or with a toolbar tool on changes nothing and does not affect later clicks. Automatic trimming picks the longest region between consecutive onsets (or the end), and the whole audio when there are no onsets.",
  ["inputs", "histories"], "every audio length, sample rate, previous trim and requested value, including out-of-range ones",
  "there are no tests for trim limits",
  ["sample/widgets/audioload.py"], [("AudioLoadTab.set_trim", "sample/widgets/audioload.py"), ("AudioLoadTab.auto_trim", "sample/widgets/audioload.py"), ("AudioLoadTab.manual_trim_cbk_press", "sample/widgets/audioload.py")],
  "one inductive step from an arbitrary valid state with unbounded integers; press/release sequences of <=4 events; auto-trim on masks of <=6 (8) samples")

P("C31", "Audio files load on a common scale",
  "Loading an audio file gives a one-channel floating-point signal in [-1, 1] whatever the sample format: signed integers are divided by their full scale, unsigned 8-bit is centred first, and floating point is kept as is; channels are averaged. After loading, the trim region is valid and the sample rate is that of the file.",
  ["inputs", "configurations"], "every sample value of every WAV sample format, any number of channels",
  "tests load one 16-bit file",
  ["sample/widgets/audioload.py"], [("AudioLoadTab.load_cbk", "sample/widgets/audioload.py")],
  "2..3 samples, 1..2 channels, all sample formats, symbolic sample values over the whole format range")

P("C32", "GUI settings always parse to usable values",
  "Parsing any text typed in a numeric setting yields a value usable by the model, never an exception: positive integers are at least 1 (or the default), the FFT size is the smallest power of two not below the integer typed, clipped values lie within their limits, strip time is None or positive and finite; a valid value is used as typed. Post-processing gives ordered frequency bounds (swapped when reversed), a non-empty window not longer than the FFT with the size reported back, and zero jobs when not parallel; applying the settings a second time, or loading them from the saved file, changes nothing.",
  ["inputs"], "every text (any number, not-a-number, infinite or not a number at all) and every combination of settings",
  "tests parse a few strings",
  ["sample/widgets/settings.py"], [("custom_positive_int", "sample/widgets/settings.py"), ("next_power_of_2", "sample/widgets/settings.py"), ("float_clip", "sample/widgets/settings.py"), ("strip_time_parse", "sample/widgets/settings.py"), ("postprocess_*", "sample/widgets/settings.py"), ("SettingsTab.apply_cbk", "sample/widgets/settings.py")],
  "text is abstracted to its float() outcome (error, nan, +-inf, any real up to 10^6); each setting and each post-processed group applied through the whole tab on stand-in widgets")

P("C33", "Deprecated arguments reach their replacement unchanged",
  "Calling with a deprecated argument behaves as calling with its replacement and the same value (or the converted one), whichever deprecated names are used and in any combination, leaves all other arguments untouched and issues one deprecation warning per deprecated argument used. Calls that use no deprecated argument issue none.",
  ["inputs", "configurations"], "every value and every subset of the deprecated arguments, plain, prefixed or converted",
  "tests check each deprecation separately with one value",
  [UI, SM, MM, "sample/sample.py"], [("deprecated_argument", UI), ("_decorate_sinusoidal_model", SM), ("_decorate_modal_model", MM), ("_decorate_sample", "sample/sample.py")],
  "every subset of groups of 3..5 deprecated names (symbolic presence), symbolic values, constructors and set_params")

P("C34", "Hyper-parameter remapping yields valid analysis settings",
  "Remapping optimiser dimensions gives an FFT size equal to two to the requested exponent, a window of the requested type whose length is the FFT size times the fraction (rounded down), and a hop between 1 and the window length equal to (1 - overlap) times the window (rounded down) when that is in range. Explicitly given FFT size, window or hop are never overwritten, other parameters pass through unchanged, and dimensions are bound by name to values in order.",
  ["inputs", "configurations"], "every combination of given and omitted parameters, every overlap and window fraction",
  "tests check one combination",
  ["sample/optimize.py"], [("sample_kwargs_remapper", "sample/optimize.py"), ("SAMPLEOptimizer._kwargs", "sample/optimize.py")],
  "exponents 1..5, symbolic overlap and window fraction, every presence pattern")

P("C35", "Changelog versions are totally ordered",
  "Comparing version numbers of any lengths is a total order: antisymmetric and transitive, zero only for equal versions, numeric component by component with a proper prefix preceding its extensions. The generated changelog lists versions from newest to oldest.",
  ["inputs"], "every pair and triple of version tuples",
  "there are no tests for the changelog script",
  ["scripts/utils/make_changelog.py"], [("_version_compare", "scripts/utils/make_changelog.py")],
  "versions of 0..3 components, unbounded natural numbers")

P("C36", "Gammatone impulse responses and filterbank layout",
  "A gammatone envelope is zero before the negated leading time and (t+t_c)^(n-1)*exp(-2*pi*b*(t+t_c)) after it; the impulse response is the scale times envelope times cos(2*pi*f*t+phi) (complex exponential if analytic), with unit energy when normalised. By default the leading time equals the group delay so that the effective group delay is zero, and setting the group delay is reflected when it is read. Filterbank centre frequencies are equally spaced on the transformed scale, strictly inside the limits.",
  ["inputs", "configurations"], "every centre frequency, order, bandwidth, leading time, phase, scale and time",
  "tests check default parameters on one grid",
  ["sample/psycho.py"], [("GammatoneFilter._envelope", "sample/psycho.py"), ("GammatoneFilter.wavefun", "sample/psycho.py"), ("GammatoneFilter.ir", "sample/psycho.py"), ("GammatoneFilterbank.__init__", "sample/psycho.py")],
  "order 1..4, 1..2 time instants, all parameters symbolic; 1..3 filters")

P("C37", "Normalisation and detrending",
  "Peak normalisation gives a maximum absolute value of one, range normalisation maps the minimum to zero and the maximum to one, and rms normalisation gives zero mean and unit variance (zeros for constant input); all preserve the order of the samples. Detrending removes exactly the least-squares line, so the residual sums to zero and is orthogonal to time. Spectral flux is the sum of the positive magnitude increments.",
  ["inputs"], "every signal with the corresponding non-degenerate value",
  "tests check random arrays",
  [UD], [("normalize", UD), ("detrend", UD), ("spectral_flux_from_tf", UD)],
  "signals of 2..4 symbolic samples; LinearRegression replaced by its exact normal equations")

P("C38", "Default sub-models are never shared and nested settings reach them",
  "Two models built without explicit sub-models never share any sub-model, storage or analysis window, while an explicitly given sub-model is used as is. A nested parameter set on a model is read back unchanged at every level, and cloning a model gives equal parameters in fresh sub-models.",
  ["configurations", "histories"], "every subset of explicitly given sub-models and nested parameters, every value",
  "tests check a few attribute pairs",
  ["sample/utils/learn.py", SM, MM, "sample/sample.py", "sample/hinge.py"], [("_DefaultProperty", "sample/utils/learn.py"), ("SAMPLE.__init__", "sample/sample.py"), ("SinusoidalModel.__init__", SM)],
  "every presence pattern of sub-models and nested parameters; symbolic parameter values")

P("C39", "Fitting again starts afresh",
  "Fitting a model, or resetting a tracker, that was used before gives the same tracks, parameters and stored intermediate results (spectra, peaks, beat decisions) as fitting a new model with the same settings, whatever it was fitted on before. Tracks and parameters reported by the earlier fit are not altered by the later one.",
  ["inputs", "histories"], "every content of the earlier and of the later fit, also with fewer or no tracks",
  "tests fit every model once",
  [SM, MM, "sample/sample.py", "sample/beatsdrop/sample.py", "sample/beatsdrop/decision.py"],
  [("SineTracker.reset", SM), ("SinusoidalModel.fit", SM), ("SAMPLE.fit", "sample/sample.py"), ("SAMPLEBeatsDROP", "sample/beatsdrop/sample.py")],
  "histories of 1..3 frames before and after; 0..3 tracks before and after; serial fitting")

P("C40", "Gammatone impulse responses end at their -60 dB time",
  "The t60 of a gammatone filter is a time after the envelope's peak at which the envelope crosses the requested level relative to the peak, to within the resolution of the search (restarting with later and doubled ranges when the level is not reached in the initial range); it is refused when no range contains the level, or when the level found is not within the requested accuracy. This holds for every filter order, including one. The suggested impulse response length is the number of whole samples from the onset to the first quarter-period of the carrier phase not before the t60.",
  ["inputs", "configurations"], "every decreasing envelope, bandwidth, leading time, phase, search range and number of steps and restarts",
  "tests use order-4 filters with default settings",
  ["sample/psycho.py", UD], [("GammatoneFilter.t60", "sample/psycho.py"), ("GammatoneFilter.ir_size", "sample/psycho.py"), ("dychotomic_zero_crossing", UD)],
  "0..3 search steps, 1..3 restarts, orders 1..4; envelope past the peak is an arbitrary decreasing function; carrier at three frequencies")

P("C41", "Decaying partials are recovered from audio",
  "Analysing a sum of stationary sinusoids at frequencies of the transform, whose level falls by a constant factor from frame to frame, gives one mode per sinusoid, with its frequency, its decay time, and the amplitude extrapolated to time zero, such that the modal envelope passes through the sinusoid's amplitude at the centre of every frame. The same modes are obtained when the audio is analysed in reverse, and independently of the gain of the analysis window.",
  ["inputs", "configurations"], "every amplitude and decay factor of one or two sinusoids, both directions",
  "tests compare one synthetic sound with wide tolerances; an error in any of the unit conversions that partly cancels in another one stays within them",
  ["sample/sample.py", SM, MM, DSP, UD],
  [("SAMPLE.fit", "sample/sample.py"), ("SAMPLE._preprocess_track", "sample/sample.py"), ("SinusoidalModel.fit", SM), ("dft", DSP), ("ModalTracker", MM)],
  "8- and 16-point transforms, Hann windows, 2..4 frames without overlap, 1..2 partials; whole pipeline from samples to modal parameters, the hinge regression replaced by the exact line")

P("C42", "The optimiser scores the clipped resynthesis and returns the best model",
  "Every evaluation of the optimiser's loss analyses the target audio with a fresh copy of the given model, set to the evaluated values of the dimensions (by name) and the sample rate, resynthesises it at the instants of the target's samples, limits the result to the peak of the target (unless disabled), and passes target and resynthesis, in this order, to the loss function with its configured arguments. Minimisation passes the dimensions in their order, continues from a given state unless starting points are given explicitly, and returns a copy of the model that is set to the best values found and fitted on the target. The given model, its settings and the target are never altered. The progress display counts every call once and tells initial random points from minimisation.",
  ["inputs", "configurations"], "every target, resynthesis, dimension values, loss values, state and option",
  "tests run two evaluations on one sound and do not look at what is compared, nor at which model is returned",
  ["sample/optimize.py"], [("SAMPLEOptimizer.loss", "sample/optimize.py"), ("SAMPLEOptimizer.gp_minimize", "sample/optimize.py"), ("TqdmCallback", "sample/optimize.py")],
  "signals of 1..3 samples, 0..2 dimensions, up to 3 evaluations; stand-in model and optimiser with arbitrary results")

P("C43", "The GUI draws, plays and exports the last analysis",
  "In the graphical interface, an analysis runs a new model with the current settings on the part of the loaded audio inside the trim region, at its sample rate; its success or failure is shown, and leaves the interface ready for another analysis. The resynthesis of the last analysis, at the instants of the analysed samples and the sample rate of the audio, is what is drawn, played and written to WAV files, however the trim region is moved later; after another file is loaded, it is made again for that audio. The parameters written to JSON files are those of the last analysis. Playing or exporting without an analysis, cancelled dialogs and files that cannot be written only show a message. Settings reach the sub-model they name.",
  ["histories", "inputs"], "every session of loading, trimming, changing settings, analysing, playing, exporting and reloading, with any audio and any analysis result",
  "the GUI tests open windows and press buttons once; they do not compare what is played with what was analysed",
  ["sample/widgets/analysis.py", "sample/widgets/audioload.py", "sample/widgets/settings.py"],
  [("AnalysisTab", "sample/widgets/analysis.py")],
  "sessions of up to 4 actions; stand-in model, plots and audio player")

P("C44", "Plots show the data",
  "Plots of tracks, spectrograms, waveforms and regressions show the values computed by the analysis at the times, frequencies and levels they belong to: tracks at the instants of their frames, also for reversed and for unpadded analyses; spectrograms with matching axes and level limits; resynthesis with the sample times of the original; beat regressions next to the data they fit. Analyses without tracks or frames can be plotted.",
  ["inputs", "configurations"], "every content of tracks, spectra and signals, both directions, padded or not",
  "tests only check that plotting does not raise",
  ["sample/plots.py"],
  [("sine_tracking_2d", "sample/plots.py"), ("sine_tracking_3d", "sample/plots.py"), ("tf_plot", "sample/plots.py"), ("resynthesis", "sample/plots.py"), ("beatsdrop_comparison", "sample/plots.py")],
  "0..2 tracks of 1..3 frames; stand-in axes record what is drawn")

P("C45", "Interrupted evaluations and benchmarks resume",
  "An evaluation (or benchmark) that is interrupted at any point, including in the middle of writing a file, can be run again with the same output path and then completes: every case gets its own result, once and in order, in the saved table and in the report; cases whose result was in the last completed checkpoint are not run again, cases without result (also failed ones) are; a completed run leaves no checkpoints. Asked not to resume, a run uses no earlier result, and later runs continue from its results, not from older ones.",
  ["crash points", "schedules", "histories", "faults"], "every order of delivery, set of failing cases, point of interruption and sequence of runs",
  "no test interrupts an evaluation",
  ["scripts/beatsdrop/evaluation.py", "scripts/cim22/performance.py"],
  [("load_results", "scripts/beatsdrop/evaluation.py"), ("run_tests", "scripts/beatsdrop/evaluation.py"), ("save_dataframe", "scripts/beatsdrop/evaluation.py"), ("run_benchmarks", "scripts/cim22/performance.py"), ("load_data", "scripts/cim22/performance.py")],
  "1..4 cases, up to 3 runs")

P("C46", "Evaluation reports describe the current results",
  "The statistical report of an evaluation ranks, for the results of that run (not of earlier ones), the absolute errors of both models in frequency (mel), amplitude (decibel) and decay; its sentences state each comparison in the right direction. The report on beat decisions counts the decision on the beat as positive case and the one on the single partial as negative case, each taken from the track nearest in frequency, and the feature importances are those of the trained classifiers, with or without progress bar. The FFT report counts cases with at least two tracks. Each test case reports its own ground truth and the parameters estimated on its loudest track, louder partial last in both. Errors in a test are raised or, on request, logged with the seed.",
  ["inputs", "histories", "faults"], "every result table, ranking, decision, track and history of runs",
  "no test runs the evaluation script",
  ["scripts/beatsdrop/evaluation.py"],
  [("statistical_tests", "scripts/beatsdrop/evaluation.py"), ("print_report", "scripts/beatsdrop/evaluation.py"), ("decision_report", "scripts/beatsdrop/evaluation.py"), ("fft_report", "scripts/beatsdrop/evaluation.py"), ("test_case", "scripts/beatsdrop/evaluation.py")],
  "1..3 cases, 1..3 tracks")

P("C47", "The interface's files survive interrupted saves",
  "Settings and loaded audio are saved so that, wherever a save is interrupted or fails, the next start of the graphical interface finds the values of the last completed save or of the interrupted one, complete: it never fails to start, and never shows half of the values. An interrupted save leaves the other files alone; saving again afterwards works. The launcher starts the interface again until it is closed.",
  ["crash points", "faults", "histories"], "every interruption point of every save and sequence of saves",
  "no test interrupts a save",
  ["sample/widgets/userfiles.py", "sample/widgets/settings.py", "sample/widgets/audioload.py", "sample/widgets/main.py", "sample/widgets/pickle.py"],
  [("UserDir.UserFile", "sample/widgets/userfiles.py"), ("SettingsTab", "sample/widgets/settings.py"), ("SAMPLEGUI", "sample/widgets/main.py")],
  "1..3 saves, one interruption each")

P("C48", "Models, beats and filters survive copying",
  "A shallow, deep or pickled copy of a beat, a model (fitted or not), a regression, a tracker, a storage, a filter, a filterbank, a loss or a random generator can always be made and behaves like the original: same parameters, same variables, same predictions, same continuation. Changing or using a deep or pickled copy does not change the original. A scikit-learn clone has the parameters and nothing that was fitted. Looking up an attribute that does not exist raises AttributeError.",
  ["inputs", "histories"], "every parameter value, signal, history before the copy and after it",
  "tests copy no object; parallel fitting and scikit-learn's searches depend on it",
  ["sample/beatsdrop/__init__.py", "sample/psycho.py", "sample/sample.py", "sample/sms/sm.py", "sample/utils/learn.py", "sample/evaluation/random.py", "sample/evaluation/metrics.py"],
  [("Beat", "sample/beatsdrop/__init__.py"), ("GammatoneFilterbank", "sample/psycho.py"), ("SAMPLE", "sample/sample.py"), ("SineTracker", "sample/sms/sm.py"), ("OptionalStorage", "sample/utils/learn.py")],
  "0..3 modes, 1..2 filters, 2..4 frames")

P("C49", "The example script analyses the requested region",
  "The example script reads audio of any format on the common scale (full scale is one, silence is zero, also for unsigned 8-bit files) and mixes it to one channel. It analyses, and writes, exactly the region between the limits given; a missing start is the last onset before the end, a missing end the next onset after the start, without limits the longest sound is taken, and something is always left when the limits overlap the audio. The resynthesis covers the region sample by sample; unless clipping is allowed, its level is turned down to the limit exactly when it exceeds it, keeping relative levels. Progress shows the given number of steps and ends full.",
  ["inputs"], "every sample value, region limit, onset mask and level",
  "no test runs the example script",
  ["scripts/beatsdrop/example.py"],
  [("load_audio", "scripts/beatsdrop/example.py"), ("crop_audio", "scripts/beatsdrop/example.py"), ("resynth_audio", "scripts/beatsdrop/example.py"), ("ScriptFitArgs", "scripts/beatsdrop/example.py")],
  "1..5 samples")

P("C50", "Parameters have the same effect wherever they are given",
  "A parameter of a model or of any of its sub-models gives the same modes, stored results and exported values whether it is given to the constructor, set later (together with others or one by one, in any order), given when fitting, kept by a clone, or set on a sub-model handed to the model; it is then reported by the model, stays in effect for later fits, and overrides whatever was set or fitted before. Arguments of fit about parallelism are not taken for parameters.",
  ["inputs", "histories"], "every value of each group of parameters, every way of giving them, every audio of the family",
  "tests give parameters in one way only",
  ["sample/sample.py", "sample/beatsdrop/sample.py", "sample/sms/sm.py", "sample/sms/mm.py", "sample/beatsdrop/decision.py"],
  [("SAMPLE.fit", "sample/sample.py"), ("SAMPLEBeatsDROP.__init__", "sample/beatsdrop/sample.py"), ("set_params", "sample/sms/sm.py")],
  "groups of 2..4 parameters, 2..3 frames")

P("C51", "Benchmark speed-ups compare strided convolution with the best alternative",
  "The benchmark script times every combination of method, duration and stride once, with durations and strides spaced logarithmically from the minimum to the maximum, each timing being of the statement of its own method on noise of its own duration, with its own stride in samples (at least one) and filters at the requested sampling frequency. The speed-up of a case is the smallest of the mean times of the other methods over the mean time of the strided one; cases without results have none. The image shows its base-two logarithm over the largest of its side, the ticks lie where the labelled speed-ups are, and the axes are labelled with the strides and durations of the cases in milliseconds.",
  ["inputs", "configurations", "histories"], "every timing, range of durations and strides, subset of missing cases and sign of the speed-ups",
  "no test runs the benchmark script",
  ["scripts/cim22/performance.py", "scripts/cim22/cochleagram_setup.py.in"],
  [("run_benchmarks", "scripts/cim22/performance.py"), ("times_matrix", "scripts/cim22/performance.py"), ("compute_speedup", "scripts/cim22/performance.py"), ("log_speedup_imshow", "scripts/cim22/performance.py"), ("logspace_p", "scripts/cim22/performance.py")],
  "1..3 cases per variable")

P("C52", "Notebook helpers show the given audio, timings and parameters",
  "The timer displays, after its block, its title and message with the time between start and end in the requested unit and decimals. The label-and-play helper displays the label (number from one, text, or both) and then the audio, each only if given, the audio clipped to full scale unless it will be normalised, with the given player and display arguments, and modifies neither audio nor arguments. The web player contains every sample of every channel, the rate and the label. The parameter view lists every parameter of a model once, with its own description if documented, and those of nested models inside them.",
  ["inputs", "configurations"], "every clock reading, sample value, and combination of given and omitted arguments",
  "tests only check that no error is raised",
  ["sample/ipython.py"],
  [("time_this", "sample/ipython.py"), ("LabelAndPlayForeach", "sample/ipython.py"), ("WebAudio", "sample/ipython.py"), ("CollapsibleModelParams", "sample/ipython.py")],
  "audio of 1..3 samples, two levels of nesting")

P("C53", "Beat regression compares the track with the model and starts from the track",
  "The residual function minimised by a beat regression compares, at every instant of the track, the decibel amplitude with that of the modelled beat (and the frequency with the modelled one, when frequencies are fitted too), times given row- or column-wise, with custom losses, weights and clipping applied as documented. The starting point takes decays and amplitudes from the slope and intercept of the linear trend, half each, the two frequencies centred on the mean of the track's, apart by the frequency of the first peak of the autocorrelogram of the detrended amplitude (equal without peaks), and the second phase from the phase of the modulation, the first being zero. The optimiser gets the requested options. The track is not modified. After fitting, prediction evaluates the fitted beat at the instants asked for.",
  ["inputs", "configurations"], "every track, trend, autocorrelogram, parameter octuple and option",
  "tests fit a few synthetic tracks and tolerate large errors; they do not look at the residuals or the starting point",
  ["sample/beatsdrop/regression.py"], [("BeatRegression.residual_fn", "sample/beatsdrop/regression.py"), ("BeatRegression.fit", "sample/beatsdrop/regression.py")],
  "tracks of 1..4 samples; stand-in beat model, optimiser and regressor with arbitrary results")

P("C54", "The figure script makes the requested figures from correct features",
  "Extrema and zero crossings marked in the figures are exactly the strict local extrema and the sign changes of the signal; the continuous transforms drawn for one partial and for a beat equal the analytic transform of the decaying cosine, the beat's being the sum of its partials'. Exactly the figures asked for are made, once, in their order, or all of them if none is; each is saved in the output folder, which is made first, under its own name with the requested extension. Panels are arranged in the requested rows and columns, transposed if horizontal, with the requested width, aspect and shared axes. Resaturation multiplies the saturation only.",
  ["inputs", "configurations"], "every signal, frequency, amplitude, decay, subset of figures, arrangement and saturation",
  "there are no tests for the script",
  ["scripts/beatsdrop/figures.py"], [("_find_extrema", "scripts/beatsdrop/figures.py"), ("BeatsDROPFigures", "scripts/beatsdrop/figures.py")],
  "signals of 1..6 samples, 1..3 by 1..3 panels; drawing is a stand-in that records")

P("C55", "The tuning script optimises for the audio it generates",
  "The automatic tuning script averages the generated sounds, scales the mean to peak one, optimises the model for that audio at its sample rate with the requested numbers of initial and following iterations and seed, and writes the original audio (before optimising) and the resynthesis by the best model, as long and clipped to full scale, to the requested file and its _r twin, or neither; the plot is saved to the requested image or shown.",
  ["inputs", "configurations"], "every generated sound, resynthesis, option and subset of output files",
  "there are no tests for the script",
  ["scripts/cim22/autotuning.py"], [("main", "scripts/cim22/autotuning.py")],
  "1..3 sounds of 1..4 samples; stand-in generator, optimiser and loss")

P("C56", "Sounds are played as given and the interface shares its state",
  "Whatever sounds were made, played or deleted before, playing a temporary sound plays exactly its samples, on one channel, at its own sample rate; playing a deleted sound does nothing, and the next sound can always be played. Values shared through the window are the same in all its widgets, separate between windows, and None until set; audio counts as loaded exactly when samples, rate and both ends of the region are set, whatever their values. Listing the widgets inside another one gives each once. Responsive widgets fill their cell and stretch exactly the given rows and columns. Invalid style colours are replaced by the default or nothing. Figures have the requested size in pixels. Replaced toolkit classes are restored afterwards.",
  ["inputs", "histories"], "every sound, rate, history of sounds and of shared values, widget tree, layout and size",
  "the GUI tests build one window and do not look at what is played or shared",
  ["sample/widgets/audio.py", "sample/widgets/utils.py", "sample/widgets/responsive.py", "sample/widgets/pyplot.py"],
  [("TempAudio", "sample/widgets/audio.py"), ("DataOnRootMixin", "sample/widgets/utils.py"), ("ResponsiveMixin", "sample/widgets/responsive.py"), ("PyplotFrame", "sample/widgets/pyplot.py")],
  "up to 5 operations on 2 sounds of 1..3 samples; stand-in audio device and toolkit")

P("C57", "The controls of the interface do what they say",
  "In the interface as its constructors build it, the tabs Load Audio, Settings and Analysis follow in this order, and every control acts as labelled, in whatever order controls are used: Load selects the longest region between onsets; a time typed in the entry start or stop moves that side to it, within valid limits; pressing and releasing the mouse in the waveform moves the nearer side, except while Pan or Zoom are on; the entries then show the region, which showing does not move, and the waveform of audio and region is drawn at its place. Play and Play Original play the region, Analyze analyses it with the last applied settings, Play Resynthesis, Export WAV and Export JSON use the last analysis; without audio or analysis they refuse. Apply puts the typed settings in use and shows those in use. Changing tab clears the selected text and changes nothing else.",
  ["inputs", "histories"], "every audio, sample rate, typed time and setting, pointer position and history of user actions",
  "the tests have no display, and a few runs do not try the orders in which controls are used",
  ["sample/widgets/main.py", "sample/widgets/audioload.py", "sample/widgets/settings.py", "sample/widgets/analysis.py", "sample/widgets/pyplot.py"],
  [("SAMPLEGUI.__init__", "sample/widgets/main.py"), ("AudioLoadTab.__init__", "sample/widgets/audioload.py"), ("SettingsTab.__init__", "sample/widgets/settings.py"), ("AnalysisTab.__init__", "sample/widgets/analysis.py")],
  "up to 6 (8) actions on the whole interface, audio of 1..3 (4) samples; stand-in Tcl interpreter below the real tkinter, stand-in analysis, dialogs and sound; limits up to 2**40 samples with every floating-point rounding when shown and read back")
P("C58", "Progress displays follow the analysis",
  "The progress bar of the graphical interface and of the example script starts from the given value and maximum, shows each step (counted, or jumped to) at once or holds it back while less than a fifth of a second has passed since the last one shown, never shows a step that was not made, never changes its maximum at a step, and is full when the phase ends; the next phase starts afresh. An analysis shows one phase for the tracks, whose value never goes beyond their number, serially and in parallel, and leaves a full bar. A bar that cannot be drawn leaves the display usable; without a bar nothing happens.",
  ["inputs", "histories", "schedules"], "every sequence of starts, steps and ends, every value, maximum and time between them, every order in which parallel jobs get ready",
  "the tests have no progress bar, and the throttle hides what is shown",
  ["sample/widgets/sample.py", "scripts/beatsdrop/example.py", "sample/_training.py"],
  [("_GUIFitArgs", "sample/widgets/sample.py"), ("ScriptFitArgs", "scripts/beatsdrop/example.py"), ("FitArgs.starmap_progress", "sample/_training.py")],
  "up to 4 (5) calls, analyses of 0..3 tracks; bars, clock and locks are stand-ins, threads are not modelled")
P("C59", "Analysis commutes with changes of units, level, sign and surroundings",
  "Analysing the same audio at a multiple of the sampling rate, with settings in hertz and seconds converted, gives the same tracks and modes with frequencies multiplied and decays divided. Raising the level of all peaks (or of the audio) and the thresholds by the same amount gives the same tracks with raised magnitudes, and modes with scaled amplitudes. Phases only follow the phases of the peaks; inverting the audio changes no frequency, decay or amplitude. Empty frames before only delay the tracks, further empty frames after change nothing, and peaks in a band farther than the deviation threshold do not change the tracks of a band.",
  ["inputs", "histories"], "every frequency, magnitude and phase of every peak, every amplitude and decay of the audio, every level and phase shift",
  "tests analyse sounds at one rate and level",
  ["sample/sms/sm.py", "sample/sms/mm.py", "sample/sample.py", "sample/sms/dsp.py"],
  [("SineTracker.__call__", "sample/sms/sm.py"), ("ModalTracker.track_ok", "sample/sms/mm.py"), ("ModalTracker.deactivate", "sample/sms/mm.py"), ("SAMPLE.fit", "sample/sample.py")],
  "3..6 frames of up to 2 peaks, audio of 2 (3) frames of 8 samples; rates times 2, 1/2; levels of the audio times 2, 1/4")
P("C60", "Formatting notebooks keeps commands and everything else",
  "Escaping the shell and magic lines of a notebook for the formatter and restoring them afterwards gives every line back exactly, whatever its indentation and content; while escaped they are statements, not commands; lines which are not commands, or not escaped ones, are never altered. Formatting a notebook only changes its code cells, except blank ones and those whose first line asks to be ignored; the formatter gets every other cell with the requested style. A cell it rejects is kept, with one comment about the error, once, if asked for. The file is written exactly if something changed, and never in a dry run; the result tells if something changed.",
  ["inputs"], "every text of every line of a cell, every kind of cell, whatever the formatter does",
  "there are no tests for the notebook script; lines vary in indentation, markers and content",
  ["scripts/utils/yapf_nbformat.py"],
  [("_wrap_command_line", "scripts/utils/yapf_nbformat.py"), ("_unwrap_command_line", "scripts/utils/yapf_nbformat.py"), ("format_nb", "scripts/utils/yapf_nbformat.py")],
  "lines of up to 7 (9) characters and of about 31, cells of up to 3 lines; formatter and notebook files are stand-ins; regular expressions are decided from their parse tree")
NA.append(("C90", "The recovery depends on the convergence of scipy.optimize.least_squares (compiled, iterative, floating point, over a non-convex loss with trigonometric functions of eight unknowns): it cannot be encoded for a solver, and replacing it by a stand-in would assume the property. What surrounds the optimiser is claimed: the loss, the starting point, the bounds and the use of the result (C15, C16, C17, C18, C53)."))
P_NA = [{
    "id": "C90", "title": "Beat regression recovers the parameters of a beat",
    "statement": "For a track sampled from two decaying partials at close frequencies, the fitted beat regression gives back their frequencies, decays and amplitudes up to the swap of the two partials.",
    "quantifier": {"over": ["inputs"], "text": "every pair of partials within the bounds of the regression"},
    "why_tests_cant": "tests fit a few beats, from which the optimiser converges",
    "anchors": {"files": ["sample/beatsdrop/regression.py"], "mechanism": [{"name": "BeatRegression.fit", "where": "sample/beatsdrop/regression.py"}], "observe_at": [], "hook_needed": None}}]


def bounds(i, note):
  """the bounds declared by the check itself"""
  import ast
  for n in ast.parse(open(os.path.join(ROOT, "checks", i + ".py")).read()).body:
    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "BOUNDS":
      return ast.literal_eval(n.value)
  return note


def main():
  have = {f[:-3] for f in os.listdir(os.path.join(ROOT, "checks")) if f.startswith("C")} if os.path.isdir(os.path.join(ROOT, "checks")) else set()
  with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
      f.write(json.dumps(p["p"]) + "\n")
    for p in P_NA:
      f.write(json.dumps(p) + "\n")
  man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
  for p in PROPS:
    i = p["p"]["id"]
    assert len(p["p"]["title"]) <= 80, i
    if i in have:
      man["checks"].append({
          "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
          "technique": T, "level": p["level"], "level_note": bounds(i, p["note"])})
    else:
      man["not_applicable"].append({"property": i, "reason": "check not built yet"})
  for i, r in NA:
    man["not_applicable"].append({"property": i, "reason": r})
  with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")


main()
