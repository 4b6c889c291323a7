#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Direct correlation and difference functions equal their definition",
  "The direct cross- and auto-correlation and cross- and auto-difference functions return, at every time delay k, exactly the sum over all frame pairs with that delay of Re(f1 conj f2) (correlation) or |f2-f1|^2 (difference), whatever the computation axis, number of dimensions, memory layout, input type, alignment option, requested output length, and regular or irregular time stamps. "
  "With complex output the value at signed delay k = t2 - t1 is the sum of conj(f1) f2, negative delays being stored from the end of a 2n-1 long array (auto: n non-negative delays only). The inputs are never modified, and pairs whose delay lies outside of the output are ignored.",
  ["inputs", "configurations"],
  "every real/complex input array of 1 to 4 dimensions, every axis, every output length, every pair of integer time sequences (gaps, offsets, negative times), align on/off, C/F/strided layout, real or complex output",
  "The tests compare a handful of fixed random arrays with each other at one or two shapes; a wrong term for one axis, gap pattern, output length or memory layout is not sampled.",
  ["cddm/core.py", "cddm/_core_nb.py"],
  [("selection of regular/irregular/vectorised kernel and axis handling", "cddm/core.py cross_correlate, auto_correlate, cross_difference, auto_difference"),
   ("numba kernels for each delay", "cddm/_core_nb.py _cross_corr*, _auto_corr*, _cross_diff*, _auto_diff*")],
  ["return value of cross_correlate, auto_correlate, cross_difference, auto_difference"])

p("C02", "FFT-based correlation and sums equal the direct ones",
  "For every input on which both are defined, the FFT-based cross-correlation, auto-correlation, cross-sum and auto-sum give the same numbers (to rounding) as the direct functions with the same arguments: real or complex output, any axis, output length, regular or irregular unique time stamps, and time inversion. "
  "This is so for each supported FFT library and does not depend on which library is selected.",
  ["inputs", "configurations"],
  "every input array, axis, output length, pair of unique integer time sequences, and every selectable fft library (numpy, scipy, pyfftw)",
  "The tests compare FFT and direct results on one or two arrays with the default library; the zero-padding length, wrap-around handling and sign conventions only fail for some lengths and time patterns.",
  ["cddm/core.py", "cddm/_core_nb.py", "cddm/fft.py"],
  [("zero padding to twice the maximal delay", "cddm/core.py cross_correlate_fft, auto_correlate_fft, cross_sum_fft, auto_sum_fft"),
   ("FFT kernels", "cddm/_core_nb.py _cross_corr_fft*, _auto_corr_fft*, _cross_sum_fft, _cross_sum_complex_fft"),
   ("library dispatch", "cddm/fft.py _fft, _ifft")])

p("C03", "Pair counts and delay-resolved sums equal their definition",
  "The cross and auto count functions return for each delay exactly the number of frame pairs having that delay, and the cross-sum and auto-sum return exactly the sum, over these pairs, of the signal of the first array (auto: mean of both), for regular and irregular times, scalar-length arguments, real (absolute-delay) and complex (signed-delay, optionally time-inverted) form, any axis and any output length. "
  "The background subtraction and statistics helpers give exactly the per-element mean and (population) variance over the requested axis and the data minus that mean (or minus the given background).",
  ["inputs", "configurations"],
  "every integer time sequence (gaps, offsets, any order; repeated times for counts and cross sums), every array/axis/output length, real and complex data",
  "Tests have a few hard-coded count examples and check sums only through normalised results of fixed random data.",
  ["cddm/core.py", "cddm/_core_nb.py"],
  [("count kernels", "cddm/_core_nb.py _add_count_cross, _add_count_cross_complex, _add_count_auto"),
   ("sum kernels", "cddm/core.py cross_sum, auto_sum; cddm/_core_nb.py _cross_sum*"),
   ("statistics", "cddm/core.py stats, subtract_background")])

p("C04", "Accumulating into existing output equals the sum of separate results",
  "Whenever an output array (or the full result tuple of a previous call) is passed back to a correlation, difference, count or sum function, afterwards every element of it is the old value plus what a separate call would return, and the passed arrays are updated in place. "
  "Therefore any sequence of calls over any list of datasets, mixing direct and FFT methods, yields the same totals as summing independent calls, and normalising the accumulated result equals normalising those totals.",
  ["histories", "inputs"],
  "every sequence of accumulate calls with different data, time stamps and methods into the same outputs, including outputs shorter than the data",
  "The tests never accumulate more than one dataset; a kernel that overwrites instead of adding, or halves what was already accumulated, passes every test.",
  ["cddm/core.py", "cddm/_core_nb.py"],
  [("output preparation", "cddm/core.py _default_out, _default_count"),
   ("accumulating kernels", "cddm/_core_nb.py"),
   ("tuple accumulation", "cddm/core.py ccorr, acorr")])

p("C05", "High-level linear analysis returns consistent data for every method",
  "The high-level auto- and cross-analysis return the tuple (correlation, count, squared sum, signal sum(s)), or (difference, count, sums) for the difference method, in which every requested element equals its definition on the input data, whatever the method (direct, FFT, difference), normalization request, axis, alignment, times, output length and user-supplied squares. "
  "Elements not needed by the requested normalization are absent, the three methods agree wherever they compute the same thing, unsupported method/normalization combinations are refused with an error, and inputs are not modified.",
  ["inputs", "configurations"],
  "every dataset, time sequence, axis, method, norm, align, n, complex combination accepted by the two high-level functions",
  "Tests try a small matrix of methods on one fixed dataset and mostly compare the normalised outcome of two code paths with each other.",
  ["cddm/core.py"],
  [("method/norm defaults and dispatch", "cddm/core.py ccorr, acorr, _default_norm, _default_method")])

p("C06", "Normalization computes the documented formula",
  "Normalizing raw correlation or difference data gives, for each normalization (standard, structured, subtracted, compensated, weighted and their combinations), both output modes (correlation / difference), with or without scaling, the documented function of the per-delay averages, background, variance, squared sums and signal sums. "
  "Correlation and difference mode outputs are related by the noise-free variance identity, structured results computed from correlation data equal those computed from difference data, and the weighted result is the given-weight (or computed-weight) mixture of the compensated/subtracted and baseline estimates.",
  ["inputs", "configurations"],
  "every raw data tuple obtained from any dataset, every norm value, mode, scale flag, background, variance and weight",
  "The tests compare a few pairs of norm/method on a single random dataset; formula errors visible only with non-zero mean, unequal backgrounds or complex data are not reached.",
  ["cddm/norm.py", "cddm/_core_nb.py"],
  [("dispatch", "cddm/norm.py normalize"),
   ("kernels", "cddm/_core_nb.py _normalize_*")])

p("C07", "Normalization invariances: scaling, background shift, masking, output reuse",
  "Normalizing with a boolean mask returns exactly the unmasked result restricted to the mask; providing an output array gives the same numbers in that array; raw data, background and variance passed in are not modified; and scaled output is independent of a multiplication of the signal with a constant. "
  "Adding a constant (per-element) background to the raw signal does not change background-subtracted and compensated results when normalised with the corresponding background (structured results: if the constant is the same in both cameras), and weights always lie between 0 and 1 in the documented limits.",
  ["inputs", "configurations"],
  "every dataset, mask, gain, per-element offset, norm, mode and scale",
  "No test applies these transformations; they are relations between runs on different inputs, which example-based tests do not state.",
  ["cddm/norm.py", "cddm/_core_nb.py", "cddm/core.py"],
  [("masking and output", "cddm/norm.py normalize, take_data"), ("weights", "cddm/norm.py weight_from_data; cddm/_core_nb.py weight_from_g, weight_from_d")])

p("C08", "Out-of-memory linear analysis equals the in-memory one",
  "The iterative auto- and cross-analysis of a stream of frames gives the same data as the in-memory analysis of the complete stack of processed frames (the longest whole number of chunks, as documented, that is available or requested) for any chunk size, stream length, frame count limit, time stamps (of synchronised cameras), method, normalization, thread divisor, mask and complex option. "
  "In chunk-only mode it is the sum of independent in-memory analyses of the chunks, the returned background and variance are the mean and variance of the frames processed, and masked-out elements are not-a-number while the others are unaffected.",
  ["inputs", "schedules", "configurations"],
  "every partition of the stream into chunks, every frame shape, time sequence, output length, and option combination",
  "Tests use one fixed length and one or two chunk sizes; mistakes in cross-chunk pairs only show for particular relations between chunk size, output length and stream length.",
  ["cddm/core.py", "cddm/multitau.py"],
  [("chunk loop", "cddm/multitau.py _compute_multi_iter"), ("entry points", "cddm/core.py iccorr, iacorr")])

p("C09", "In-memory multiple-tau analysis equals a level-by-level reference",
  "The in-memory multiple-tau analysis returns, as its fast part, the linear analysis of the input up to the level size and, as level l of its slow part, the linear analysis of the input binned l times (l = 1, 2, ...) by two with the chosen binning (mean: average of neighbours; first: the first of two neighbours; random choice: one of the two), the binned data being regularly spaced. "
  "This holds for regular and irregular data, auto and cross, real and complex output, all methods and normalizations, any level size, number of levels, axis, mask and thread divisor.",
  ["inputs", "configurations"],
  "every dataset length, level size, number of levels, binning, method, norm, time sequences and period",
  "Tests compare iterative with in-memory versions of the same code on one dataset, so a mistake common to both, or one present for other lengths/levels, is invisible.",
  ["cddm/multitau.py"],
  [("level recursion", "cddm/multitau.py _compute_multi, ccorr_multi, acorr_multi"), ("binning", "cddm/multitau.py mean_data, slice_data, choose_data")])

p("C10", "Out-of-memory multiple-tau analysis equals the in-memory one",
  "The iterative multiple-tau analysis of a stream of frames (of synchronised cameras) equals a level-by-level analysis of the whole stream for any chunk size, level size, number of levels, length, period, irregular time stamps, method, normalization, mask and thread divisor, in full mode; with automatic background it equals the analysis of the data with the first chunk's mean subtracted. "
  "Every frame is used exactly once, extra frames beyond the requested count do not change the result, and the returned background and variance are the mean and variance of the processed frames.",
  ["inputs", "schedules", "configurations"],
  "every way the stream is cut into chunks relative to level size and length, and every option combination",
  "Tests use one dataset with a single chunk size and a power-of-two length.",
  ["cddm/multitau.py"],
  [("streaming state machine over levels and chunks", "cddm/multitau.py _compute_multi_iter"), ("entry points", "cddm/multitau.py iccorr_multi, iacorr_multi")])

p("C11", "Log-spaced averaging, merging and time axes are mutually consistent",
  "Converting linear correlation data to multi-level or log-spaced data averages, at each level, exactly the linear samples under the documented binning, keeps the fast part unchanged, and pairs each value with the time given by the matching time axis, so that any function linear in delay is reproduced exactly by mean binning. "
  "Merging the levels (period a power of two) yields a strictly increasing time axis without duplicates or gaps with each sample taken from the correct level, count functions return the effective number of data pairs of each merged sample, and the multi-tau normalization equals normalising every level on its own.",
  ["inputs", "configurations"],
  "every data length, level size, number of levels, binning and normalization",
  "The tests check a few shapes and one merge; off-by-one level/time pairings at other sizes are not covered.",
  ["cddm/multitau.py", "cddm/_core_nb.py"],
  [("log averaging", "cddm/multitau.py multilevel, merge_multilevel, log_average, log_merge, t_multilevel"), ("counts", "cddm/multitau.py multilevel_count, log_average_count, ccorr_multi_count, acorr_multi_count"), ("normalization", "cddm/multitau.py normalize_multi")])

p("C12", "Half-plane and full-plane FFT representations convert without loss",
  "Expanding half-plane Fourier data of a real input to the full plane gives exactly the two-dimensional FFT of that input, converting back restores the half-plane data exactly, and masks and data taken with them follow the same element mapping, for any even or odd frame shape and any cropping. "
  "Wave-vector grids and angle maps of the half plane agree with the corresponding part of those of the full plane and with the standard FFT frequency ordering.",
  ["inputs", "configurations"],
  "every frame shape (odd and even sizes), every crop limits, every mask",
  "Tests use a single shape and few entries.",
  ["cddm/map.py", "cddm/fft.py"],
  [("half/full plane mapping", "cddm/map.py as_fft2_shape, as_rfft2_mask, as_rfft2_data, as_rfft2_conj, from_rfft2_data"), ("grids", "cddm/map.py rfft2_grid, fft2_grid, rfft2_kangle, fft2_kangle")])

p("C13", "Angular-sector selection averages the right wave vectors once",
  "The sector index maps assign an element to ring k exactly when its wave-vector length is within the ring and its direction is within the requested angular sector, with disjoint rings, and the k-averaging returns for every ring the (arithmetic) mean of data and of wave-vector length over exactly those elements, skipping empty rings. "
  "A mask removes elements without otherwise changing the selection, not-a-number data are skipped, averaging of half-plane data is consistent with averaging of the equivalent full-plane data (up to the Nyquist row of even frames), and single-k selection gives the same value as the corresponding entry of a multi-k selection.",
  ["inputs", "configurations"],
  "every frame shape, angle, sector width, k-step, mask and data (real and complex)",
  "Tests check a few index maps by stored example.",
  ["cddm/map.py"],
  [("sector maps", "cddm/map.py fft2_sector_indexmap, fft2_k_indexmap, sector_indexmap, k_indexmap"), ("averaging", "cddm/map.py k_select")])

p("C14", "Video FFT and cropping equal the plain two-dimensional FFT",
  "Transforming a video frame by frame gives for each frame of each camera the two-dimensional FFT of that frame (of the real frame, half plane; or of a complex frame, full plane) cropped to the requested lowest wave vectors, in order, without changing the input frames, independent of the FFT library and the in-place option. "
  "Cropped data contain exactly the Fourier coefficients with |ki|<=kimax and (0<=)kj<=kjmax in FFT order, and frame normalization divides each frame by its own zero-frequency component.",
  ["inputs", "configurations"],
  "every frame shape, crop limits, dtype, number of cameras and fft library",
  "Tests use a single shape and library.",
  ["cddm/fft.py"],
  [("crop", "cddm/fft.py rfft2_crop, fft2_crop"), ("video transforms", "cddm/fft.py rfft2_video, fft2_video, normalize_fft")])

p("C15", "Video processing operators act frame-wise, lazily and in order",
  "Each video operator (crop, mask, add, subtract, multiply, normalize, and the real-FFT normalization) maps the n-th frame of each camera of the input to the n-th output frame with the documented arithmetic, without dropping, duplicating or reordering frames, consuming the source lazily, and, unless in-place operation is requested, without modifying the input frames. "
  "Composition of operators over a stream equals applying them to complete in-memory stacks.",
  ["inputs", "histories"],
  "every stream length, number of cameras, frame shape/dtype, operator parameters and operator sequence, in-place or not",
  "Tests apply every operator once to one random stream.",
  ["cddm/video.py"],
  [("operators", "cddm/video.py crop, mask, add, subtract, multiply, normalize_video, norm_rfft2")])

p("C16", "Stream conversion, playback and threading deliver every frame exactly once",
  "Converting between arrays, streams, memory-mapped files and back returns the same frames in the same order, and passing a stream through the playback, threading or display stages yields the identical sequence of frames, each exactly once and nothing else, ending when the source ends. "
  "An error raised by the source or a stage reaches the consumer, and no stage consumes more of the source than it delivers beyond its documented read-ahead.",
  ["inputs", "schedules", "fault_sequences"],
  "every stream length, frame shape, camera count, queue size / fps setting, count limit, and source failure position",
  "Tests run one short stream; frame loss, an extra sentinel item or a swallowed error at the end of a stream is not observed.",
  ["cddm/video.py"],
  [("conversion", "cddm/video.py fromarrays, asarrays, asmemmaps, load"), ("playback and threads", "cddm/video.py play, play_threaded, threaded"), ("display", "cddm/video.py show_video, show_diff, show_fft")])

p("C17", "Simulated particles follow the Brownian model inside the box",
  "A simulated Brownian walk returns, for the requested number of frames and particles, positions that always stay within the box (periodic mirroring), start at the given positions, and advance by exactly velocity times time step plus a random displacement of the requested standard deviation, and is reproducible from the seed. "
  "Periodic coordinate folding and the rotate/offset transform are exact modulo the box size, and particle/video generators yield one frame per requested time with both cameras seeing the same trajectory at their own times.",
  ["inputs", "configurations"],
  "every box shape, time step, diffusion constant, velocity, seed, particle count, and pair of (irregular) time sequences",
  "Tests check one or two seeds and shapes, mostly only that code runs.",
  ["cddm/sim.py", "cddm/_sim_nb.py"],
  [("walk", "cddm/sim.py brownian_walk, brownian_particles, particles_video, simple_brownian_video"), ("kernels", "cddm/_sim_nb.py mirror, make_step")])

p("C18", "Simulated trigger, exposure times, drawing and camera response are faithful",
  "The trigger generator delivers from the stream exactly the frames at the requested times of each camera in order; random trigger sequences have the requested number of frames, are strictly increasing and satisfy the documented time-pairing rules; drawing deposits each particle's intensity at its own (periodic) pixel and nowhere else, summing overlapping particles. "
  "The simulated camera converts signal to counts monotonically, subtracting the black level, clipping at zero and at the maximal value for the bit depth, without modifying its input; simulated noise and form factors follow their documented formulas.",
  ["inputs", "configurations"],
  "every stream, index sequences, trigger parameters, particle positions/intensities, frame shapes, bit depths, saturation and black level",
  "Tests check few fixed values.",
  ["cddm/sim.py", "cddm/_sim_nb.py"],
  [("trigger", "cddm/sim.py data_trigger, create_random_times1, create_random_time, random_time_count"), ("drawing", "cddm/_sim_nb.py draw_points, draw_psf"), ("camera", "cddm/sim.py adc; cddm/_sim_nb.py adc_*")])

p("C19", "Smoothing filters obey their definition and are deterministic",
  "The median, convolution, monotone (increasing/decreasing) and interpolation filters act independently on each row along the last axis and give exactly the documented result at every sample including the borders: medians of the window, kernel averages, monotone hulls that reproduce already monotone data unchanged, and linear or log-linear interpolation that is exact at the nodes. "
  "Their result depends only on the input, and weighted sums and denoising are exact combinations of their arguments with weights within 0 and 1.",
  ["inputs"],
  "every row length, dimension, and data values",
  "Tests check a single short sequence each.",
  ["cddm/avg.py", "cddm/_core_nb.py"],
  [("filters", "cddm/_core_nb.py median, convolve, decreasing, increasing, interpolate, log_interpolate, weighted_sum")])

p("C20", "Window functions are symmetric tapers of the requested shape",
  "Each FFT window has exactly the requested shape, values between 0 and 1, is symmetric under reflection along both axes (for equal axes also under transposition), and equals the documented formula with its limiting cases (zero taper gives a flat circular aperture, full taper gives the cosine window). "
  "Multiplying a video with a window multiplies every frame elementwise.",
  ["inputs", "configurations"],
  "every shape (odd, even, rectangular) and every width/taper parameter",
  "Tests check one shape by an example value.",
  ["cddm/window.py"],
  [("windows", "cddm/window.py blackman, gaussian, tukey, hann")])

p("C21", "Viewers show exactly the normalised, k-selected data",
  "For every setting of angle, sector, k, mask, normalization and scale, the data returned by a data viewer is the normalised correlation data averaged over exactly the selected wave vectors, with the matching k value and delay times, for linear and multi-tau, half- and full-plane and masked data, and the plotted lines and images of the viewers (data, array and video viewers) show exactly these values for every position of their controls. "
  "Any sequence of set-data and set-mask calls leaves the viewer in the same state as making only the last ones, and viewing does not modify the data.",
  ["inputs", "histories"],
  "every data set, mask, and sequence of viewer operations",
  "No test inspects the viewers' output values.",
  ["cddm/viewer.py"],
  [("viewer models", "cddm/viewer.py DataViewer, CorrViewer, MultitauViewer")])

p("C22", "Library settings are restored and validated",
  "Each configuration setter returns the previous value, makes the new value effective, and setting the returned value back restores the earlier behaviour for any sequence of calls; invalid values raise an error and leave the setting unchanged (a library that is not installed is refused with a warning, negative verbosity is clamped to zero). Settings given by the configuration file or environment variables take effect at import. "
  "Analysis and normalization calls leave the verbosity and library settings as they were, also for nested calls and calls that fail with an error, and results never depend on the verbosity level or thread numbers.",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of setter calls with valid and invalid values interleaved with (succeeding or failing) computations",
  "Tests set each option once.",
  ["cddm/conf.py", "cddm/print_tools.py"],
  [("setters", "cddm/conf.py set_verbose, set_fftlib, set_rfft2lib, set_showlib, set_fft_threads, set_numba_threads"), ("print suppression", "cddm/print_tools.py disable_prints, enable_prints")])

p("C23", "Reshaping for threads and masks is transparent",
  "Reshaping input data with any valid thread divisor and/or mask, analysing it, and reshaping the output back gives the same result as analysing the data directly, with not-a-number at masked-out elements, for raw tuples and normalised arrays. "
  "Incompatible divisors are refused, element order is never changed, and the count data are passed through untouched.",
  ["inputs", "configurations"],
  "every frame shape, axis, thread divisor, mask, method and result kind",
  "Tests check one shape with one divisor.",
  ["cddm/core.py"],
  [("reshape", "cddm/core.py reshape_input, reshape_output, reshape_frame, thread_frame_shape")])

p("C24", "Precision, parallel and fast-math builds compute the same thing",
  "Compiled with single instead of double precision, with the parallel instead of the serial target, with fast-math, or without caching, the package computes the same correlation, multiple-tau, normalization, averaging, video, Fourier-space selection and simulation results as the default build within the rounding error of the precision used (fast-math: for finite data), whatever the precision of the input. "
  "Results in parallel builds do not depend on the number of threads or on the schedule.",
  ["configurations", "schedules", "inputs"],
  "every build configuration (environment switches), number of threads, and input",
  "The test-suite runs in the default configuration only.",
  ["cddm/conf.py", "cddm/_core_nb.py"],
  [("build switches", "cddm/conf.py CDDM_DOUBLE_PRECISION, CDDM_TARGET_PARALLEL, CDDM_FASTMATH, CDDM_NUMBA_CACHE")])

p("C25", "Folding, phase removal and the error model equal their definition",
  "Folding complex (signed-delay) data returns for each delay the positive value, the negative one, or the mean of the positive and the conjugated negative value, without modifying the data. Removing the translation phase yields data that are independent of a translation of one of the cameras, are real at zero delay and conjugate (equalized: exactly, shifted: in phase, with unchanged magnitude) at opposite delays, and restores the data of aligned cameras. "
  "The noise, delta and scaling parameters equal their formulas for any number type; the noise level is the Fourier-space power of white camera noise under the window; the error functions of the weighted normalization equal the exact standard deviation of the weighted estimator of correlated complex Gaussian signals (with or without a background), and the weight functions minimise it, in correlation and difference mode alike.",
  ["inputs"],
  "every signed-delay array, translation phase, variance pair, window, and Gaussian signal model (complex correlation, unequal variances, backgrounds)",
  "No test touches the error model or these helpers beyond a shape; formula errors only appear for complex correlation or unequal variances.",
  ["cddm/norm.py", "cddm/_core_nb.py"],
  [("folding and phases", "cddm/norm.py fold_data, shift_data, equalize_data"), ("noise parameters", "cddm/norm.py noise_level, noise_mean, noise_delta, scale_factor, take_data, weight_from_data, weight_prime_from_data"), ("error model", "cddm/_core_nb.py weight_from_g, weight_prime_from_g, sigma_weighted, sigma_prime_weighted")])

p("C26", "End-to-end analysis of known dynamics recovers the known correlation function",
  "For a video of a periodic pattern that moves with a constant velocity (numerically shifted frames or simulated particles; one or two cameras with different gain, dark image, border and shift), the complete analysis - reading, cropping, dark subtraction, threading, Fourier transform with cropping and normalization, (iterative) linear or multiple-tau correlation or difference, normalization - returns at every wave vector and delay exactly the known cosine (complex: phase factor), whichever route, FFT library, method, normalization, mask, thread divisor, in-place or alignment option is chosen, for regular and irregular times. "
  "Hence all routes agree with each other, signs and orders of cameras, axes and delays are consistent across the modules, and folding, shift removal, log-merging and selection of wave vectors of the results give the same functions of it.",
  ["inputs", "configurations"],
  "every pattern, frame size, velocity, trigger times, camera parameters and route through the package",
  "Tests exercise the modules one by one, on data without a known answer; a consistent-looking convention error (sign, axis, half-plane, time order) in one route does not show.",
  ["cddm/core.py", "cddm/multitau.py", "cddm/norm.py", "cddm/fft.py", "cddm/video.py", "cddm/sim.py"],
  [("video pipeline", "cddm/video.py crop, subtract, threaded, asarrays; cddm/fft.py rfft2_video, fft2_video, normalize_fft; cddm/sim.py particles_video, brownian_walk"), ("analysis routes", "cddm/core.py acorr, ccorr, iacorr, iccorr; cddm/multitau.py acorr_multi, ccorr_multi, iacorr_multi, iccorr_multi"), ("results", "cddm/norm.py normalize, fold_data, shift_data; cddm/multitau.py normalize_multi, log_merge; cddm/map.py k_select")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
