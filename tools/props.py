"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, note=note, observe=observe))


E, EE, CE, U, VI, CK, CO, SP = ["PyEMD/%s.py" % x for x in ("EMD", "EEMD", "CEEMDAN", "utils", "visualisation", "checks", "compact", "splines")]

prop("C01", "EMD components add up to the signal",
     "For every finite signal of integer or floating samples, configuration and mode limit, the rows returned by EMD sum sample by sample to the input signal (up to rounding), and every row has exactly one value per sample. This holds for every stopping criterion, spline kind, extrema detection, boundary size and sample type, however long or short the signal, and whether or not a time axis is given.",
     ["inputs", "configurations"], "all signals (values, lengths within the stated bounds), spline kinds, detections, stopping rules, max_imf, sample types",
     "Tests add up the rows of two or three fixed synthetic signals with the default configuration.",
     [E], [("EMD.emd", E), ("residual update in the sifting loop", E)],
     "Bounded: complete decompositions of symbolic signals of 4-8 samples through the real detection, mirroring, splines and sifting; plus the driver loop with arbitrary envelopes/counts/verdicts for up to 5 siftings.")
prop("C02", "Modes, residue and trend of the last run are consistent with its output",
     "After an EMD run, the modes plus the residue reported by the accessors equal the signal; the returned rows are those modes followed by the residue, which is left out exactly when it is zero. The trend is the residue, or the slowest mode when the residue is zero, and modes plus trend again equal the signal. Asking any of the decomposers before a run is a ValueError.",
     ["inputs", "histories"], "all signals, configurations, numbers of modes including none",
     "Tests look at the accessors after one or two fixed signals, never at signals without modes or with zero residue.",
     [E, EE, CE], [("get_imfs_and_residue / get_imfs_and_trend", E), ("end of EMD.emd", E)],
     "Bounded: driver loop with arbitrary envelopes and verdicts (up to 5 siftings), exact signals of 5 samples, trends.")
prop("C03", "max_imf limits the modes and only truncates",
     "With max_imf = m > 0, EMD returns at most m modes plus a remainder row, and those modes are the first modes of the decomposition run with a larger or no limit. Without a limit (or with -1) the decomposition goes on until its own stopping rule fires, however many modes that takes.",
     ["inputs", "configurations"], "all signals, limits, stopping rules",
     "Tests run max_imf on one fixed signal and only compare row counts.",
     [E], [("max_imf test in EMD.emd", E)],
     "Bounded: limits 1-3, arbitrary sifting outcomes up to 5 siftings, exact signals of 6-7 samples.")
prop("C04", "FIXE, FIXE_H and MAX_ITERATION sift as often as documented",
     "With FIXE = k every extracted mode is the signal's current remainder (what the earlier modes leave) sifted exactly k times, each time by subtracting the mean of the two envelopes, FIXE taking precedence over FIXE_H. With FIXE_H = k a mode is accepted as soon as k consecutive siftings, from the second one on, conform to the extrema/zero-crossing condition, and not before. No mode is ever sifted more than MAX_ITERATION times.",
     ["inputs", "configurations"], "all signals and extrema-count histories, k, MAX_ITERATION",
     "Tests set FIXE / FIXE_H once each and check the number of siftings via logging-free side effects on one signal.",
     [E], [("sifting loop", E)],
     "Bounded: k up to 3, at most 6 siftings, arbitrary envelopes and counts; exact 5-7 sample signals re-sifted by an independent oracle.")
prop("C05", "Default stopping rule and trend detection are as documented",
     "With the default rule a mode is accepted exactly when its numbers of extrema and zero crossings differ by at most one and the convergence test passes: no negative maxima or positive minima, non-vanishing, and scaled variance, standard deviation or energy ratio below its threshold. The decomposition ends when the remainder's range or total absolute value is below its threshold or it has at most two extrema; a signal with at most two extrema is returned unchanged as the only row with no modes.",
     ["inputs", "configurations"], "all proto-modes, thresholds, remainders; all signals with at most two extrema",
     "Tests call check_imf and end_condition on a handful of fixed arrays.",
     [E], [("check_imf", E), ("end_condition", E), ("_check_imf decision in EMD.emd", E)],
     "Bounded: arrays of 2-3 samples with arbitrary values for the criteria; 4-6 sample signals for trends.")
prop("C06", "Sample-based extrema and zero crossings are exactly those of the signal",
     "With the default ('simple') detection, the reported maxima and minima are exactly the interior samples, or flat runs, strictly above respectively below both neighbours, each once, at its own time (a flat run at its middle) and with its own value, for every integer and floating sample type. Zero crossings count each sign change between neighbours and each run of zero samples once, in order and inside the signal.",
     ["inputs"], "all signals including plateaus, repeated values and zeros; integer and float types; any time axis",
     "Tests use about ten fixed signals.",
     [E], [("_find_extrema_simple", E), ("find_extrema", E)],
     "Bounded: all signals of 3-5 samples (6-7 positive; thorough 6-8), plateau structures of 3-5 runs, 9-sample patches.")
prop("C07", "Parabolic extrema are the vertices at exactly the local extrema",
     "With parabolic detection on a uniform time axis there is exactly one reported extremum per local extremum of the samples, at the vertex of the parabola through the sample and its two neighbours, within half a sample of it and at least as extreme. A flat extremum is reported once, at its middle. Positions are strictly increasing.",
     ["inputs"], "all signals (neighbours equal or separated), all uniform axes",
     "Tests cover a few fixed cosine signals.",
     [E], [("_find_extrema_parabol", E)],
     "Bounded: 3-6 free samples, 8-sample segments, plateau structures of 3-4 runs; neighbouring samples equal or at least 1/1000 apart.")
prop("C08", "Boundary mirroring covers the signal, keeps extrema, adds only images",
     "For any signal with at least three extrema, the extended maxima and minima have strictly increasing positions, reach both ends of the time axis, and contain every detected extremum unchanged. Each side is extended by mirror images of the nearest extrema of the same kind, nbsym of them or as many as there are, all about one axis: the end of the signal or its outermost extremum, with the end sample itself counting as an extremum where it lies beyond it.",
     ["inputs", "configurations"], "all signals, nbsym, both detections",
     "Tests compare the mirrored points of two or three fixed signals.",
     [E], [("prepare_points, _prepare_points_simple, _prepare_points_parabol", E)],
     "Bounded: 5-6 free, 6-9 alternating (11 thorough), 9-10 sample segments; nbsym 1-5.")
prop("C09", "EMD is total: every finite signal gives finite components",
     "For every finite signal of at least two integer or floating samples, every spline kind, boundary size, stopping rule and sample type, EMD returns without raising and every returned value is finite. This includes constant, monotonic, plateau-ridden, repetitive, integer and very short signals.",
     ["inputs", "configurations"], "all finite signals and configurations",
     "Tests decompose smooth synthetic signals and a few short ones.",
     [E, SP], [("EMD.emd", E), ("spline_points", E), ("splines", SP)],
     "Bounded: 2-5 free samples, 7-8 alternating, segments up to 14 samples, plateau structures; at most 3 siftings per mode under the default rule.")
prop("C10", "Envelopes are the requested interpolant through the extended extrema",
     "For every documented spline kind, the upper and lower envelopes are that interpolant through the extended extrema, with one value per sample, and touch the signal at every detected sample extremum. With only three points the cubic kind is the natural cubic spline. Spline kinds are case-insensitive; unknown spline kinds or detection names are refused.",
     ["inputs", "configurations"], "all signals with three or more extrema, all spline kinds",
     "Tests evaluate each spline on one fixed point set.",
     [E, SP], [("spline_points, extract_max_min_spline", E), ("cubic_spline_3pts, akima, cubic, pchip, cubic_hermite", SP)],
     "Bounded: signals of 5-10 samples; scipy's interpolators are represented by their defining equations.")
prop("C11", "EMD respects sign, time reversal, offset and amplitude",
     "Negating a signal negates every component; reversing it in time reverses every component; adding a constant changes only the residue by that constant; scaling it scales every component (with the absolute stopping thresholds switched off). The number of components does not change.",
     ["inputs", "configurations"], "all signals, offsets, scales, spline kinds",
     "Tests contain no symmetry relation.",
     [E], [("find_extrema, prepare_points, spline_points, emd", E)],
     "Bounded: 4-5 free samples, 6-8 alternating, segments up to 10; fixed sifting (default rule for the sign).")
prop("C12", "The time axis matters only as documented",
     "With sample-based detection the decomposition is independent of the time values; with either detection, leaving the time axis out equals passing any uniform axis, and shifting or stretching the axis changes nothing. A time axis of another length, or (parabolic detection) with repeated values, is refused with an error.",
     ["inputs", "configurations"], "all signals; all increasing axes; shifts and stretches",
     "Tests pass one or two linspace axes.",
     [E, U], [("_normalize_time", E), ("get_timeline", U), ("length check in EMD.emd", E)],
     "Bounded: 4-7 samples; symbolic increasing axes for sample-based detection.")
prop("C13", "Decompositions are pure: inputs, earlier and later results are independent",
     "EMD, EEMD and CEEMDAN never modify the signal or time axis they are given, a result once returned is never changed by later use of the instance, and overwriting what EMD returned does not disturb what the instance reports. A used instance, even after a run that failed, gives for a new signal exactly what a fresh one with the same configuration (and noise seed) gives.",
     ["inputs", "histories"], "all signals and sequences of two or three runs on one instance",
     "Tests mostly use each instance once.",
     [E, EE, CE], [("EMD.emd", E), ("EEMD.eemd", EE), ("CEEMDAN.ceemdan", CE)],
     "Bounded: two-three consecutive runs, signals of 3-6 samples.")
prop("C14", "The default time axis is exactly 0, 1, ..., n-1 for every sample type",
     "For a signal of n samples of any integer or float type, the default time axis has exactly n entries and entry i equals i, in a type of the same family that is at least as wide. Unifying the types of two arrays yields one common type and preserves every value of both. The normalised axis starts at zero, has smallest step one and keeps proportions.",
     ["inputs", "configurations"], "every length up to 2**25 (2**26 thorough), every index, every sample type",
     "Tests try a handful of lengths around the int16/uint16 limits.",
     [U, E], [("get_timeline, smallest_inclusive_dtype, unify_types", U), ("_normalize_time", E)],
     "Exhaustive within the bound: length and index are symbolic, dtype enumerated.")
prop("C15", "EEMD reports exactly the ensemble statistics of its trials",
     "Each EEMD component is the mean of the trials' modes of that order, over the trials that have one; the counts, pointwise standard deviations and stored trial modes agree with the trials. With separate_trends every trial's trend is averaged into the last component. The residue is what the components leave of the signal; the mode limit and time axis reach every inner decomposition, one per trial.",
     ["inputs", "configurations", "histories"], "all trial outcomes (rows per trial and values), trials, limits",
     "Tests run whole ensembles on random noise and check shapes or loose statistics.",
     [EE], [("EEMD.eemd", EE), ("ensemble_mean/std/count", EE)],
     "Bounded: 1-4 trials of 0-3 arbitrary rows, 2-3 samples.")
prop("C16", "Ensemble noise has the requested kind and amplitude, drawn afresh",
     "EEMD adds to every trial noise of the requested kind whose standard scale is noise_width times the signal's range; CEEMDAN's noise has scale noise_scale. Every sample of every trial, in every process and on every run, is a fresh draw: no two trials share noise. Unknown noise kinds are refused.",
     ["inputs", "configurations", "schedules"], "all signals, draws, widths, trials and process counts",
     "Tests check the sample standard deviation of one noise vector.",
     [EE, CE], [("generate_noise", EE), ("_trial_update", EE), ("generate_noise", CE)],
     "Bounded: 1-6 trials, 0-4 processes; draws are arbitrary values identified by stream and position.")
prop("C17", "The same noise seed gives the same result, different seeds different noise",
     "After noise_seed(s), EEMD and CEEMDAN give the same result for the same signal on every instance and regardless of earlier runs or of the global random state; CEEMDAN(seed=s) equals noise_seed(s). Different seeds, unseeded instances and successive runs use different noise, and running an ensemble never disturbs the global random stream.",
     ["inputs", "histories", "configurations"], "all seeds, earlier runs, process counts, noise kinds",
     "Tests compare two seeded runs on one configuration.",
     [EE, CE], [("noise_seed", EE), ("noise_seed", CE)],
     "Bounded: 2-3 trials, 0-3 processes, histories of up to three runs.")
prop("C18", "CEEMDAN reconstructs the signal completely and respects its limit",
     "The rows returned by CEEMDAN sum to the input signal, with nothing left over in the reported residue, for every seed, noise, limit and inner decomposition; max_imf = m gives at most m rows plus the remainder. Scaling the signal scales every component, and the input is not modified.",
     ["inputs", "configurations"], "all signals of non-zero deviation, noise draws, inner decompositions, limits",
     "Tests check the reconstruction of one fixed signal.",
     [CE], [("CEEMDAN.ceemdan", CE)],
     "Bounded: 2-6 samples, 1-3 trials, up to 4 components, inner rows arbitrary.")
prop("C19", "CEEMDAN computes the published stages and stopping rule",
     "Component 1 is the mean over trials of the first mode of signal plus epsilon times the first noise mode; component k+1 is the mean over trials of the first mode of the current remainder plus epsilon times its deviation times the k-th noise mode, noise being scaled to unit deviation unless beta_progress is off. Noise that has run out of modes contributes none, a trial that does not oscillate is its own local mean, and the time axis reaches every trial. The procedure ends when the limit is reached, or the remainder's range or total absolute value is below its threshold, or the remainder has no more modes.",
     ["inputs", "configurations"], "all noise draws, epsilons, numbers of noise modes, stages",
     "Tests run CEEMDAN once or twice on fixed signals.",
     [CE], [("ceemdan, _eemd, _trial_update, end_condition, _realizations", CE)],
     "Bounded: 3-4 samples, 1-3 trials, 3 stages; inner EMD a linear smoother.")
prop("C20", "EEMD's result does not depend on parallel execution",
     "With the same seed, EEMD gives the same components, counts, stored trial modes and residue whether trials run sequentially or in parallel, whatever the number of processes, chunking or number of trials, with and without separate trends, on first and repeated runs.",
     ["inputs", "schedules", "configurations"], "all draws, trial counts, process counts",
     "Tests only run the parallel mode for its shape.",
     [EE], [("EEMD.eemd pool", EE)],
     "Bounded: 1-9 trials (33 thorough), 1-4 processes (8 thorough); pool modelled by its contract.")
prop("C21", "CEEMDAN's result does not depend on parallel execution or completion order",
     "With the same seed, CEEMDAN gives the same components and residue whether trials run sequentially or in parallel, whatever the number of processes and the order in which trials complete, on first and repeated runs.",
     ["inputs", "schedules", "configurations"], "all draws, process counts, completion orders",
     "Tests only run the parallel mode for its shape.",
     [CE], [("CEEMDAN._eemd pool", CE)],
     "Bounded: 1-4 trials in every completion order, 1-4 processes.")

NA = []

if os.path.exists(os.path.join(V, "tools", "props2.py")):
    exec(open(os.path.join(V, "tools", "props2.py")).read())


def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="./run --self-test", checks=[], not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="Every check re-reads /repo's current source, executes it symbolically (symx/), discharges each obligation with z3 and replays every counterexample on the real code before reporting it. Evidence lists functions encoded, bounds, queries and solver time per task; quick budgets are about 30 s per check, thorough ones 2-10 minutes.")
    for p in P:
        if p["id"] in [a for a, _ in NA]:
            continue
        m["checks"].append(dict(property=p["id"], quick_cmd="./run %s --tier quick" % p["id"], thorough_cmd="./run %s --tier thorough" % p["id"],
                                technique="symbolic execution of the real source, SMT (z3), counterexamples replayed", level="model_checking",
                                level_note=p["note"] + " Real arithmetic instead of IEEE rounding; z3 trusted; bounds and leftovers in the evidence file.",
                                evidence_file="evidence/%s.json" % p["id"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


write()
