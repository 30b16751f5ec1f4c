#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "hook_needed": None}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    P.append(d)

prop("C01", "FFA output row s is the sum of all input rows along the drift path for shift s",
 "For every m x p input, row s of the FFA transform (0 <= s < m) equals the sum of the m input rows, input row i being rotated left circularly by d(i) bins, where d is a whole-bin drift path that starts at 0, ends at s, never decreases, grows by at most one bin per row and is built by recursive halving with each half given the nearest-integer share of the drift. The path depends only on (m, s), never on p or on the data values, and holds for p smaller or larger than m and for m = 1. Transforming a 1-D series at base period p gives exactly the transform of its first floor(N/p)*p samples arranged in rows, as float32 of shape (m, p), and a p that is not an integer between 1 and N is refused.",
 ["inputs"], "all (m, p) shapes up to the bound, all shifts s, all input values (by linearity: a basis that identifies the path uniquely)",
 "Tests compare a handful of fixed shapes against a Python copy of the algorithm on random data; no test covers all m, p < m, or checks the path itself.",
 ["riptide/cpp/transforms.hpp", "riptide/cpp/kernels.hpp", "riptide/cpp/block.hpp", "riptide/libffa.py"],
 [("recursive transform and merge", "riptide/cpp/transforms.hpp"), ("rotate-and-add kernel", "riptide/cpp/kernels.hpp"), ("1-D front end", "riptide/libffa.py:ffa1")],
 ["riptide.ffa1", "riptide.ffa2"])

prop("C02", "Trial frequencies and periods of an FFA transform match its rows",
 "For N samples, base period p and sampling time dt, the trial frequency list has exactly m = floor(N/p) entries (one per transform row), starts at 1/(p dt), decreases in equal steps down to (1/p - 1/p^2)/dt for m > 1, and the trial period list is its elementwise reciprocal. Scaling dt scales periods by the same factor. Non-integer or non-positive N, p that is not an integer > 1, p > N and dt that is not > 0 are refused with ValueError.",
 ["inputs"], "all (N, p) up to a bound, a set of dt spanning 12 decades, and all invalid argument classes",
 "One test checks two (N, p) pairs for length and end points.",
 ["riptide/libffa.py"], [("trial grid formula and argument checks", "riptide/libffa.py:ffafreq/ffaprd")],
 ["riptide.ffafreq", "riptide.ffaprd"])

prop("C03", "Downsampling by any real factor is the exact area-weighted sum",
 "Downsampling N samples by a real factor f (1 < f <= N) returns float32 data with floor(N/f) samples, sample k being the integral of the input, seen as a unit-width step function, over [k f, (k+1) f). The input is never modified. Any factor not above 1 or above N is refused with ValueError.",
 ["inputs"], "all sizes up to a bound, every rational factor a/b on a grid plus its two floating-point neighbours, all input positions (impulse basis) and mixed-magnitude data",
 "Tests only exercise factor 10 on constant or generated series; non-integer factors and window boundaries at sample edges are never compared with the definition.",
 ["riptide/cpp/downsample.hpp", "riptide/libffa.py", "riptide/time_series.py"],
 [("window bounds and end weights", "riptide/cpp/downsample.hpp:downsample"), ("factor check", "riptide/cpp/downsample.hpp:check_downsampling_factor")],
 ["riptide.downsample"])

prop("C04", "Boxcar S/N is the best circular zero-mean unit-norm boxcar response",
 "For every profile of b bins and every trial width 0 < w < b, the returned S/N is max over all b circular start positions of (h+B)*(sum of the w bins) - B*(sum of the profile), divided by the noise standard deviation, with h = sqrt((b-w)/(b w)) and B = h w/(b-w). It is computed independently for each profile and width in the order given, for input of any dimensionality (output shape = input shape with the last axis replaced by the widths), is unchanged by rotating the profile or adding a constant to it, and never modifies its input. Widths outside 0 < w < b and a noise level that is zero or negative are refused with ValueError.",
 ["inputs"], "all profiles over a small alphabet and size, all widths 1..b-1 alone and in every short list including unsorted and repeated, 1 to 4 dimensions",
 "Tests check one box-shaped profile and rotation on one size; wrap-around, widths close to b and lists of widths are not compared to the definition.",
 ["riptide/cpp/snr.hpp", "riptide/cpp/kernels.hpp", "riptide/libffa.py"],
 [("circular prefix sums and difference maximum", "riptide/cpp/kernels.hpp"), ("boxcar normalisation", "riptide/cpp/snr.hpp:snr1"), ("reshape for n-D input", "riptide/libffa.py:boxcar_snr")],
 ["riptide.boxcar_snr", "riptide.libcpp.snr1", "riptide.libcpp.snr2"])

prop("C05", "Running median is exact; the fast variant and dereddening follow from it",
 "The running median of any array with any odd window smaller than the array is, at each index, the median of the window centred there with both ends padded by the edge values; even windows and windows not smaller than the array are refused with ValueError. The fast running median equals it (even windows being widened by one sample) when the window holds less than twice min_points samples, and otherwise is the linear interpolation, at full resolution with constant ends, of the running median with min_points window of the data block-averaged by floor(window/min_points); an even min_points is refused. Dereddening subtracts exactly that, for a window of round(width/tsamp) samples.",
 ["inputs"], "all arrays over a small alphabet and all permutations up to a length, all windows, all (window, min_points) pairs for the fast variant; larger arrays with every window",
 "Tests compare a few random arrays and widths for the exact variant, and the no-scrunch case only for the fast one.",
 ["riptide/cpp/running_median.hpp", "riptide/running_medians.py", "riptide/time_series.py"],
 [("ring buffer and quickselect", "riptide/cpp/running_median.hpp"), ("scrunch, median, interpolate", "riptide/running_medians.py:fast_running_median"), ("subtraction", "riptide/time_series.py:deredden")],
 ["riptide.running_median", "riptide.fast_running_median", "TimeSeries.deredden"])

prop("C06", "The search tries exactly the complete, increasing grid of trial periods",
 "For every valid search request, trial periods are strictly increasing, all lie in [period_min, period_max), and consist of, for each downsampling stage (sampling time period_min/bins_min, growing by the factor (bins_max+1)/bins_min per stage) and each whole number of bins b from bins_min to bins_max, all FFA shift trials b^2/(b - s/(rows-1)) of that stage that are below b+1 bins and below period_max, with no gap and no repeat; each is reported with its number of bins b. The search stops on its own where fewer than two periods (rows) fit in the data, however large period_max is, and invalid requests (period_min not smaller than period_max, bins_min <= 1, bins_max < bins_min, period_min < bins_min sampling times, non-positive sampling time or period, trial widths not below bins_min) are refused with ValueError. No trial period exceeds the data length divided by the requested minimum number of periods.",
 ["inputs", "configurations"], "all combinations of a grid of data lengths, sampling times, period ranges and bin ranges, including ranges beyond the data length and single-bin ranges",
 "Two tests run a single configuration each and look at the best period only.",
 ["riptide/cpp/periodogram.hpp", "riptide/cpp/python_bindings.cpp", "riptide/search.py"],
 [("trial loop and length computation (must agree)", "riptide/cpp/periodogram.hpp"), ("argument checks", "riptide/cpp/periodogram.hpp:periodogram_check_arguments"), ("fpmin cap (documented)", "riptide/search.py:ffa_search")],
 ["riptide.ffa_search"])

prop("C07", "Search S/N equals downsample, fold along the drift path, boxcar, calibrated",
 "Each S/N in the periodogram of a time series equals the boxcar S/N, for that trial width, of the profile obtained by downsampling the series by the stage's factor, folding it at that number of bins and summing its rows along the FFA drift path of that trial, divided by the true standard deviation of unit-variance white noise in that profile. Consequently unit white noise gives unit-variance response at every stage, for integer and non-integer downsampling factors alike. The search itself dereddens first, then normalises to zero mean and unit variance, each only if requested, returns the series it actually searched, and leaves its input untouched.",
 ["inputs", "configurations"], "all combinations of a grid of lengths, sampling times, period ranges, bin ranges, widths and data patterns; every S/N of every periodogram compared",
 "Tests only check the top S/N of one bright injected pulsar within a tolerance that hides mis-calibrated stages.",
 ["riptide/cpp/periodogram.hpp", "riptide/cpp/downsample.hpp", "riptide/cpp/transforms.hpp", "riptide/cpp/snr.hpp", "riptide/search.py"],
 [("per-stage noise normalisation", "riptide/cpp/downsample.hpp:downsampled_variance"), ("stage loop", "riptide/cpp/periodogram.hpp:periodogram"), ("preparation order", "riptide/search.py:ffa_search")],
 ["riptide.ffa_search"])

prop("C08", "Numerical kernels are memory-safe and right for any array size and layout",
 "For any array length (including 0 and 1), any data type, and any memory layout (strided, reversed, transposed, Fortran-ordered, read-only), every numerical entry point either raises an ordinary exception or returns what it returns for a contiguous float32 copy of the same values. It never reads or writes outside its arrays, never returns uninitialised memory, never modifies its input and never kills the interpreter. Rotations, rotate-and-add and circular prefix sums equal their documented definitions for every shift and length.",
 ["inputs"], "all small sizes x all parameters at and beyond their limits x all layouts and data types, on a build with address and undefined-behaviour sanitizers and poisoned allocations",
 "Tests run without sanitizers and use well-formed contiguous arrays of a few sizes.",
 ["riptide/cpp/python_bindings.cpp", "riptide/cpp/kernels.hpp", "riptide/cpp/snr.hpp", "riptide/cpp/periodogram.hpp", "riptide/cpp/running_median.hpp"],
 [("contiguity checks and output allocation", "riptide/cpp/python_bindings.cpp"), ("kernel loops", "riptide/cpp/kernels.hpp")],
 ["riptide.libcpp", "riptide.libffa", "riptide.running_medians"])

prop("C09", "Results never depend on what was called before, and inputs are left intact",
 "Every public function and method not asked to work in place returns bit-identical results for identical arguments whatever calls preceded it in the process, does not modify any of its arguments, and returns data that later calls do not change. No call changes module-level defaults seen by later calls.",
 ["histories"], "all ordered pairs (thorough: triples) of calls over an alphabet of every public operation on colliding inputs, each history run in a pristine process",
 "Each test calls functions in one fixed order in one process and never compares a repeated call.",
 ["riptide/libffa.py", "riptide/time_series.py", "riptide/running_medians.py", "riptide/search.py", "riptide/peak_detection.py", "riptide/folding.py", "riptide/serialization.py", "riptide/metadata.py", "riptide/reading/sigproc.py", "riptide/cpp/python_bindings.cpp"],
 [("fresh output arrays", "riptide/cpp/python_bindings.cpp"), ("copying of header key database and metadata", "riptide/reading/sigproc.py, riptide/metadata.py")],
 ["all public functions"])

prop("C10", "Any sequence of TimeSeries operations keeps data, tsamp and tobs consistent",
 "After any sequence of normalise, deredden, downsample and copy, each in place or not, the series holds exactly the float32 data obtained by applying those operations' definitions in order (normalise: zero mean, unit variance), its sampling time is the original one times the downsampling factors, and its length and recorded observation time equal number of samples times sampling time. In-place and out-of-place forms give the same result; out-of-place forms leave the source and its metadata untouched, and later operations on either never show in the other; a series made with copy=True never changes the caller's array. Metadata other than the observation time is carried over unchanged.",
 ["histories"], "all operation sequences up to a depth over the full alphabet in place and out of place, from several initial series",
 "Tests call each method once, on one series, and never chain in-place and out-of-place calls.",
 ["riptide/time_series.py", "riptide/metadata.py"],
 [("in-place/out-of-place branches", "riptide/time_series.py"), ("tobs recorded at construction", "riptide/time_series.py:__init__")],
 ["TimeSeries.data", "TimeSeries.tsamp", "TimeSeries.metadata"],
 [("(data, tsamp, metadata)", "state of a TimeSeries", "riptide/time_series.py")])

prop("C11", "Folding yields the documented shape and preserves every sample's weight",
 "Folding at period P with b bins yields one row per full period that fits in the data (1-D if there is only one, or if one sub-integration is requested), or exactly the requested number of sub-integrations; row i, bin j is the area-weighted sum of the data over that bin of that period, scaled by one over the square root of the number of samples per bin over all periods, and sub-integrations are area-weighted sums of consecutive period rows. Hence the sum over sub-integrations is the same profile whatever number is requested. A period longer than the data, bins not wider than the sampling time, and a number of sub-integrations below 1 or above the number of periods are refused with ValueError; every other request succeeds, and the source series is unchanged.",
 ["inputs"], "all (length, period, bins, sub-integrations) on a dense grid including periods that divide the data length exactly and every sub-integration count",
 "Tests fold one series with three parameter sets and check shapes only.",
 ["riptide/folding.py", "riptide/time_series.py", "riptide/cpp/downsample.hpp"],
 [("period and bin checks, sub-integration grouping", "riptide/folding.py")],
 ["TimeSeries.fold"])

prop("C12", "Saved objects load back equal; truncated files never load",
 "Any time series, periodogram, candidate, metadata, numpy array (any numeric dtype, shape, order, including empty and zero-dimensional), sky coordinate, numeric table, or list/dict nesting of them, saved to JSON and loaded back, has the same type (metadata may come back as a plain dict, tuples as lists), shape, dtype and exactly equal values, is as usable as the original (arrays writable), and saving does not modify it. Loading any strict prefix of a saved file raises an error instead of returning an object.",
 ["inputs", "crash_points"], "all dtype x shape x layout combinations, all object kinds with all metadata variants and nestings to depth 3; every truncation point of each saved file",
 "One test round-trips one TimeSeries; candidates are only loaded for a single run; no torn file is tried.",
 ["riptide/serialization.py", "riptide/time_series.py", "riptide/periodogram.py", "riptide/candidate.py", "riptide/metadata.py"],
 [("encoder/decoder hooks", "riptide/serialization.py"), ("to_dict/from_dict of each class", "riptide/time_series.py, riptide/periodogram.py, riptide/candidate.py")],
 ["riptide.save_json", "riptide.load_json"])

prop("C13", "PRESTO .inf files are read exactly or refused",
 "Every well-formed PRESTO .inf file (radio, X-ray or gamma, with or without on/off data breaks) yields exactly the values it states, with sky position, absolute path, and observation time = bins x bin width, and its series is the float32 content of the .dat file of the same name; high-energy data raise a warning. Artificial data sets, other observing bands, files with a malformed required field and files cut at any point before their last required field (the analyst's name) are refused with an exception, never read with a wrong numeric value.",
 ["inputs", "fault_sequences"], "all combinations of band, break lists, boolean flags, numeric formats and path shapes; every single-line deletion, every truncation byte, every misplaced separator",
 "Tests read three fixed files from the repository.",
 ["riptide/reading/presto.py", "riptide/metadata.py", "riptide/time_series.py"],
 [("line parser and band-dependent block", "riptide/reading/presto.py"), ("metadata conversion", "riptide/metadata.py:from_presto_inf")],
 ["TimeSeries.from_presto_inf", "Metadata.from_presto_inf"])

prop("C14", "SIGPROC files are read exactly or refused",
 "Every well-formed single-channel SIGPROC time series file with 32-bit float or signed or unsigned 8-bit data yields exactly the header values it contains whatever their order, the sky position encoded as hhmmss/ddmmss (including negative declinations), float32 data equal to the stored samples, and observation time = whole samples in the file x sampling time. Multi-channel data, other bit depths, 8-bit data of unspecified signedness, unknown keys and headers cut at any byte are refused with an exception. Extra key types apply only to the call they are given to.",
 ["inputs", "histories", "fault_sequences"], "all key orders of a small header, all key types, bit depths and signedness, coordinate grid; every header truncation byte; all ordered pairs of loads with and without extra keys",
 "Tests read four fixed files from the repository.",
 ["riptide/reading/sigproc.py", "riptide/metadata.py", "riptide/time_series.py"],
 [("header attribute reader and key database", "riptide/reading/sigproc.py"), ("format checks", "riptide/metadata.py:from_sigproc")],
 ["TimeSeries.from_sigproc", "Metadata.from_sigproc"])

prop("C15", "One-dimensional clustering is exactly friends-of-friends",
 "Clustering numbers with radius r splits their indices into groups such that every index appears in exactly one group, two neighbouring values (in sorted order) are in the same group if and only if they differ by at most r, and the result is the same grouping whether the input is unsorted or declared sorted in increasing or decreasing order. An empty input gives no group.",
 ["inputs"], "all sequences over a small value alphabet up to a length, all radii hitting and missing each gap, all orders",
 "No test calls the clustering directly.",
 ["riptide/clustering.py"], [("sorted gaps", "riptide/clustering.py:cluster1d")],
 ["riptide.clustering.cluster1d"])

prop("C16", "Peak finding reports exactly one peak per group of significant trials",
 "For each trial width, the significant points are those whose S/N exceeds both the minimum S/N and the selection threshold (a polynomial in log frequency fitted to median + nstd x robust deviation of equal-population frequency segments of the given width, or a constant minimum S/N if there are fewer than the minimum number of segments); exactly one peak is reported for each friends-of-friends group of significant points, at the group's highest S/N, with period, frequency, width, duty cycle, indices, S/N and DM consistent with the periodogram at that trial. Peaks are listed by decreasing S/N, nothing below threshold is reported, and periodograms of any number of trial points, including none, are handled without error.",
 ["inputs"], "all S/N patterns over a small alphabet on short frequency grids x radii x integration times; all single and paired spike placements on long grids with dynamic thresholds; all trial counts from 0",
 "Tests check the top peak of one bright pulsar.",
 ["riptide/peak_detection.py", "riptide/clustering.py"],
 [("segment statistics and threshold fit", "riptide/peak_detection.py"), ("clustering of significant points", "riptide/clustering.py")],
 ["riptide.find_peaks"])

prop("C17", "Selected DM trials cover the DM range minimally and map to their files",
 "Given any set of input files in any order, the DM trials selected are the files' DMs within the requested range (capped by DM|sin b| when set, defaulting to all available), in increasing order, starting at the lowest and ending at the highest available; consecutive selected trials have touching coverage radii (the larger of minimum width and intra-channel smearing, converted to DM) unless no available trial lies between them, and no selected trial could be skipped. Iterating in chunks of any size yields every selected trial's own file exactly once in order. Differing sky positions, an empty DM range, or missing band parameters for formats that lack them raise an error, and band parameters come from the files whenever these state them consistently.",
 ["inputs", "configurations", "histories"], "all subsets of a DM grid, all file orders of small sets, all DM ranges, minimum widths, bands, galactic latitudes, chunk sizes; both formats",
 "Pipeline tests use three DM trials that are all selected.",
 ["riptide/pipeline/dmiter.py"], [("greedy selection", "riptide/pipeline/dmiter.py:select_dms"), ("file bookkeeping", "riptide/pipeline/dmiter.py:DMIterator")],
 ["DMIterator.selected_dms", "DMIterator.iterate_filenames"])

prop("C18", "Harmonic flags are exactly the documented relation, and chains never form",
 "A pair of signals is reported related if and only if the phase, DM and S/N distances computed from the closest rational frequency ratio with bounded denominator are all within their limits, and the fraction reported is harmonic frequency over fundamental frequency. Over any set of clusters, ranks are 0,1,2,... by decreasing S/N; a cluster is flagged as a harmonic if and only if it is related to a brighter unflagged cluster, its parent is the brightest such, and no flagged cluster is ever the parent of another. The cluster table reports parents and fractions accordingly.",
 ["inputs", "configurations"], "all small sets of signals drawn from a grid of frequency ratios, offsets at both sides of each limit, DMs and S/Ns, in all input orders",
 "One pipeline run happens to exercise the code; no relation or set-level property is checked.",
 ["riptide/pipeline/harmonic_testing.py", "riptide/pipeline/pipeline.py", "riptide/pipeline/peak_cluster.py"],
 [("distance tests", "riptide/pipeline/harmonic_testing.py"), ("pairwise flagging in S/N order", "riptide/pipeline/pipeline.py:flag_harmonics")],
 ["htest", "Pipeline.clusters", "clusters.csv"])

prop("C19", "Pipeline products are mutually consistent, filtered as asked, fault-isolated",
 "For any set of detected peaks and any filter settings, the peak table holds every peak once by increasing period, the cluster table partitions them (friends-of-friends in frequency within radius/Tobs) by decreasing S/N, and the candidates are exactly the clusters that pass the DM, S/N, harmonic and count filters (the brightest kept), numbered from 0 by decreasing S/N, each candidate file holding its cluster's best-peak parameters, its peaks, and the fold, with its period range's bins and sub-integrations, of the dereddened and normalised series of its own DM, with a plot of the same number if and only if plots are asked for. If building some candidates fails, all others are still produced with consistent numbering. With no peaks, no product is written.",
 ["inputs", "configurations", "fault_sequences"], "all small peak sets from a grid of (period, DM, S/N) x all filter combinations; all subsets of candidate builds failing",
 "Tests only check that the first candidate of a single run has the injected parameters.",
 ["riptide/pipeline/pipeline.py", "riptide/pipeline/peak_cluster.py", "riptide/candidate.py"],
 [("stage sequence", "riptide/pipeline/pipeline.py:process"), ("per-candidate exception guard", "riptide/pipeline/pipeline.py:build_candidates"), ("filters", "riptide/pipeline/pipeline.py:apply_candidate_filters")],
 ["peaks.csv", "clusters.csv", "candidates.csv", "candidate_NNNN.json"])

prop("C20", "Pipeline products do not depend on parallel scheduling or input file order",
 "For the same set of input files and search parameters, the files written by the pipeline are byte-identical (or equal in content) whatever the number of processes, the assignment of DM trials to workers, the order in which workers finish, and the order in which files are listed, including when several DM trials give exactly equal S/N. Every selected trial is searched exactly once, and an error in a worker makes the run fail instead of yielding partial products.",
 ["schedules", "configurations", "fault_sequences"], "all worker assignments and completion orders of the search and writing tasks, all process counts and file orders for small file sets; every single worker task failing",
 "Tests run once with one process count and whichever order the scheduler picks.",
 ["riptide/pipeline/worker_pool.py", "riptide/pipeline/pipeline.py", "riptide/pipeline/dmiter.py"],
 [("ordered result collection", "riptide/pipeline/worker_pool.py:process_fname_list"), ("global sort by period", "riptide/pipeline/pipeline.py:search"), ("one file per candidate", "riptide/pipeline/pipeline.py:CandidateWriter")],
 ["output directory"],
 [("task order and worker assignment", "multiprocessing pool", "riptide/pipeline/worker_pool.py")])

prop("C21", "Pipeline configurations are accepted or refused as documented, unaltered",
 "Every configuration with all required sections and values of the documented types, documented blanks included, is accepted and returned with equal values; removing any required key, adding an unknown key, or giving any single key a value of a wrong type or outside its allowed domain is refused with the configuration error before any data are read. Search ranges that are not contiguous and increasing, or that ask for more bins than the coarsest sampling time allows (in the search or in candidate folding), are refused with the search-range error, and only those.",
 ["configurations"], "every single-key mutation (deletion, wrong type, boundary and out-of-domain values) of the example and test configurations, all pairs for the nullable keys, all small range lists x sampling times",
 "One test tries four wrong configurations.",
 ["riptide/pipeline/config_validation.py", "riptide/pipeline/pipeline.py"],
 [("schemas", "riptide/pipeline/config_validation.py"), ("range checks", "riptide/pipeline/config_validation.py:validate_ranges")],
 ["validate_pipeline_config", "validate_ranges", "Pipeline"])

prop("C22", "A periodic pulse anywhere in the search range is recovered",
 "For a time series containing a periodic pulse train at any period in the searched range, any phase and any duty cycle the search is set to cover, the search returns a trial within one pulse width of drift over the observation of the true period whose S/N is close to the best boxcar S/N obtained by folding the same data exactly at the true period, and, when the data hold at least a few tens of periods, the highest S/N of the search and the top detection of peak finding are at that period. Multiplying the data by a positive constant or adding a constant offset changes neither the trials nor (beyond rounding) the S/Ns.",
 ["inputs"], "all combinations of a grid of periods over the whole range (including stage boundaries), phases, duty cycles, lengths and sampling times",
 "Tests inject one pulsar at one period and phase.",
 ["riptide/search.py", "riptide/cpp/periodogram.hpp", "riptide/cpp/transforms.hpp", "riptide/peak_detection.py"],
 [("complete trial grid", "riptide/cpp/periodogram.hpp"), ("boxcar bank", "riptide/ffautils.py")],
 ["riptide.ffa_search", "riptide.find_peaks"])

prop("C23", "A pipeline object can be reused: each run reports only its own data",
 "Running several data sets one after the other through the same pipeline object gives, for each run, exactly the files that a fresh pipeline object gives for that data set alone, whether earlier runs found many candidates, one, or none.",
 ["histories"], "all sequences of runs up to a length over data sets with several, one and no signals, with and without filters",
 "Tests create a new pipeline for each run.",
 ["riptide/pipeline/pipeline.py"], [("per-run state reset", "riptide/pipeline/pipeline.py")],
 ["output directory"], [("peaks, clusters, filtered clusters, candidates", "state carried between stages", "riptide/pipeline/pipeline.py")])

prop("C24", "The single-series search tool reports exactly the distinct significant peaks",
 "For every valid command line, the search tool loads the file in the stated format, searches it with exactly the requested range, bins, width spacing and dereddening parameters (and duty cycles up to 30%), and returns a table with one row per group of peaks within the clustering radius, the brightest of each group, sorted by decreasing S/N, all above the minimum S/N; if there are none it returns nothing and says so. The printed table shows the same rows.",
 ["configurations", "inputs"], "all combinations of a grid of values for every command-line option x small data sets of both formats with zero, one and two signals",
 "Tests run two command lines, with default options for the most part.",
 ["riptide/apps/rseek.py", "riptide/clustering.py"], [("argument parsing", "riptide/apps/rseek.py:get_parser"), ("grouping and sorting", "riptide/apps/rseek.py:run_program")],
 ["rseek run_program result and stdout"])

prop("C25", "Generated test signals have the stated period, phase, shape and amplitude",
 "A generated noiseless signal of n samples is the von Mises pulse train with the requested period, initial phase and full width at half maximum, with L2 norm equal to the requested amplitude; noise, if requested, is added on top with the requested standard deviation, so that with the same random state the noisy signal minus the pure noise is the noiseless signal. A generated time series has round(length/tsamp) samples, the given sampling time and metadata stating the parameters used.",
 ["inputs"], "all combinations of a grid of lengths, periods, phases, duty cycles, amplitudes and noise levels",
 "One test checks the length of one generated series.",
 ["riptide/libffa.py", "riptide/time_series.py"], [("pulse train formula and normalisation", "riptide/libffa.py:generate_signal")],
 ["riptide.generate_signal", "TimeSeries.generate"])

prop("C26", "Metadata accepts exactly valid values, fills in blanks, and copies",
 "Metadata accept a dictionary if and only if keys are strings, source name and file name are strings, DM and MJD are non-negative floats, observation time is a positive float, sky position is a sky coordinate (any of these may be absent or None), and all other values can be written as JSON; absent reserved keys read as None. The given dictionary is neither modified nor shared: adding, removing or replacing entries of either later does not affect the other.",
 ["inputs"], "each reserved key x a table of valid, boundary and invalid values, all presence subsets, extra keys of every JSON and non-JSON kind",
 "Metadata are only exercised through file loading.",
 ["riptide/metadata.py"], [("schema", "riptide/metadata.py")], ["riptide.Metadata"])

prop("C27", "Trial pulse widths follow the documented sequence up to the duty-cycle limit",
 "The trial widths used by a search start at 1 bin, follow next = max(floor(spacing x width), width + 1), and stop at the last value not exceeding the larger of 1 and maximum duty cycle x minimum bins, for every number of bins, maximum duty cycle and spacing; S/Ns are reported for exactly these widths in this order.",
 ["inputs", "configurations"], "all bins up to a bound x a grid of duty cycles and spacing factors",
 "No test looks at the sequence.",
 ["riptide/ffautils.py", "riptide/search.py"], [("width recurrence", "riptide/ffautils.py:generate_width_trials")],
 ["Periodogram.widths", "Periodogram.snrs"])

prop("C28", "Candidates expose a consistent profile and DM curve and can always be plotted",
 "For any candidate produced by the pipeline (any number of bins, sub-integrations including one, and DM trials), the profile is the sum of its sub-integrations, the DM curve lists each distinct DM once in increasing order with the highest S/N at that DM, saving a plot succeeds whatever the metadata (any of them may be absent), writes an image of the requested size that shows the sub-integrations, the DM curve and the parameters, and leaves no figure open, and none of these changes the candidate. If the requested sub-integrations do not fit in the data, the candidate has one per full period instead.",
 ["inputs", "configurations"], "all combinations of bins, sub-integration settings (including none, one and too many), series lengths from just over one period, and peak tables",
 "One pipeline configuration plots candidates for a single bright pulsar.",
 ["riptide/candidate.py", "riptide/folding.py"], [("construction from pipeline output", "riptide/candidate.py:from_pipeline_output"), ("plotting", "riptide/candidate.py")],
 ["Candidate"])

prop("C29", "A periodogram keeps, stores and plots exactly the search output",
 "A periodogram's trial frequencies are the reciprocals of its trial periods, in decreasing order, and its observation time and other metadata are those of the series searched. Its dictionary, JSON and pickle forms restore the same content, bit for bit. Plotting draws on the current figure, over the complete range of trial periods, the highest S/N over all trial widths for each trial period, or the S/N for the one selected width (named in the title); displaying opens exactly one figure of the requested size. None of these changes the periodogram.",
 ["inputs"], "all small S/N tables over an alphabet x every width selection; search results over a grid of lengths, sampling times, bins, ranges and metadata",
 "No test plots, stores or reads back a periodogram with more than one width in mind.",
 ["riptide/periodogram.py", "riptide/serialization.py", "riptide/search.py"], [("views and plot", "riptide/periodogram.py:Periodogram"), ("construction from a search", "riptide/search.py:ffa_search")],
 ["Periodogram"])

prop("C30", "The pipeline program writes the run's products where told, and nothing else",
 "Whatever the log level, timing and log file options, spelling and order of options and order of input files, the pipeline program writes into the output directory (the working directory by default) exactly the products that the same configuration gives through the programming interface, writes the log file if and only if asked (replacing an old one, with the same lines as on standard error), leaves every other file alone, logs no line below the selected level, and logs run times if and only if asked. Wrong arguments (unknown options or levels, a missing configuration, input or output directory, an invalid configuration or input file) end with an error and write no product.",
 ["configurations", "inputs"], "all combinations of the options' values x spellings and positions; all orders of the input files; every single wrong argument",
 "One test runs the program with default logging options and an absolute output directory.",
 ["riptide/pipeline/pipeline.py", "riptide/timing.py"], [("argument parsing", "riptide/pipeline/pipeline.py:get_parser"), ("logging set-up", "riptide/pipeline/pipeline.py:run_program"), ("products", "riptide/pipeline/pipeline.py:save_products")],
 ["output directory", "log file", "standard error", "exit status"])

prop("C31", "Calls made at the same time from several threads give what they give alone",
 "Two calls of public functions or methods running at the same time in different threads, whether of the same function or not, on separate objects or reading the same ones, each return exactly what they return when made alone, or raise the same error, however the two are interleaved. Neither changes its arguments, the other's results, the working directory or anything else the other depends on, and neither waits forever. Drawing random numbers and plotting are excepted.",
 ["schedules"], "all ordered pairs of calls of the same function, and of functions sharing lower layers (thorough: all), x all preemption points of the first at line granularity (thorough: instruction granularity, and one preemption of each)",
 "No test calls the library from more than one thread; a wrong interleaving would show up only by chance.",
 ["riptide/running_medians.py", "riptide/time_series.py", "riptide/search.py", "riptide/reading/sigproc.py", "riptide/reading/presto.py", "riptide/serialization.py", "riptide/cpp/python_bindings.cpp"], [("no state shared between calls", "riptide/reading/sigproc.py:read_sigproc_header"), ("kernels own their buffers", "riptide/cpp/running_median.hpp")],
 ["results of public calls", "exceptions", "working directory"])

prop("C32", "A pipeline run does exactly what its configuration says",
 "Every setting of the configuration governs exactly what it names, in every combination: the DM trials searched are those that the DM selection gives with the configured limits and band and the narrowest pulse of all search ranges; each trial, after a running median of the configured width is removed and the series normalised, is searched in each range with that range's search and peak detection settings (defaults where left out); peaks are clustered with the configured radius over the median observation length; harmonics are flagged with the configured limits; candidates are what the configured filters leave, folded with the bins and sub-integrations of the range that holds their period. A setting has no effect anywhere else: not on other ranges, and (the number of processes, range names, band values given in the data) on no product. (fpmin is a recorded finding of C06.)",
 ["configurations"], "all settings x lists of values, in several base configurations and each search range; pairs of settings (thorough: all)",
 "The tests run two configurations and look at the top candidate only.",
 ["riptide/pipeline/pipeline.py", "riptide/pipeline/worker_pool.py", "riptide/pipeline/dmiter.py", "riptide/pipeline/config_validation.py"], [("search of one trial", "riptide/pipeline/worker_pool.py:process_fname"), ("DM selection", "riptide/pipeline/pipeline.py:prepare"), ("clustering radius", "riptide/pipeline/pipeline.py:cluster_peaks"), ("harmonic limits", "riptide/pipeline/pipeline.py:flag_harmonics"), ("folds", "riptide/pipeline/pipeline.py:build_candidates")],
 ["peaks.csv", "clusters.csv", "candidates.csv", "candidate files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
