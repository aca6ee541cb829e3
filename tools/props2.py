J = "PyEMD/experimental/jitemd.py"
prop("C22", "The white-noise test judges each component by its energy and period",
     "whitenoise_check gives one verdict, 0 or 1, per component, keyed 1..n: a priori, a component is significant exactly when its energy density leaves the white-noise band given by its mean period (samples per non-negative peak), the number of samples and the confidence alpha; a posteriori, the limit is one-sided and rescaled by the reference component alone. Raising alpha never makes a component significant. No data or NaN gives None, and bad arguments are refused.",
     ["inputs", "configurations"], "all components (values, numbers of rows), alphas, test names, reference components",
     "Tests evaluate a few fixed or random arrays and mostly check that a dictionary comes back.",
     [CK], [("whitenoise_check, significance_apriori, significance_aposteriori", CK), ("mean_period, energy", CK)],
     "Bounded: 1-3 rows of 4-5 free samples or listed patterns of 8-12 samples with any amplitude; verdicts within 1e-6 of the limit are outside.")
prop("C23", "Compact filter, derivative and tridiagonal solver satisfy their equations",
     "The tridiagonal solver's result satisfies the system it was given. The compact filter satisfies the sixth-order filter equations inside and fourth-difference corrections at three samples of each end: polynomials up to cubic pass unchanged, the sample-to-sample sawtooth is removed, and filtering commutes with time reversal. The compact derivative is exact for polynomials up to degree six at every sample for every step and antisymmetric under reversal, and inputs are not modified.",
     ["inputs"], "all samples, all alpha in (-1/2, 1/2), all steps, all diagonally dominant systems",
     "Tests filter one sine and differentiate one function with loose tolerances.",
     [CO], [("TDMAsolver", CO), ("filt6", CO), ("pade6", CO)],
     "Exhaustive within: 6-10 free samples (any alpha up to 9), 7-10 for the derivative, one-parameter families up to 129 samples; the filter needs at least 6 samples and the derivative 7.")
prop("C25", "Plots show every component, in order, on its own labelled axis",
     "plot_imfs draws one axis per mode, labelled IMF 1, IMF 2, ..., and, unless excluded, the residue last, labelled Res, each against the given time axis or the sample numbers; arguments take precedence over the instance, and missing data is an AttributeError. plot_instant_freq draws, per mode, the phase slope of the analytic signal divided by 2 pi (first-order with the last value repeated, or sixth-order), filtered as requested; alpha outside (-1/2, 1/2) is refused.",
     ["inputs", "configurations"], "all modes, residues, axes, orders and alphas",
     "Tests only check that plotting does not raise and the shapes of the frequencies.",
     [VI, CO], [("plot_imfs, _check_imfs", VI), ("plot_instant_freq, _calc_inst_phase, _calc_inst_freq", VI)],
     "Bounded: up to 12 modes, 1-9 samples; matplotlib replaced by a recorder, the arctangent uninterpreted.")
prop("C26", "JitEMD gives the same components as EMD",
     "On a uniform time axis JitEMD with a given configuration returns the same components as EMD with that configuration, for every signal, spline kind it supports, extrema detection, boundary size, stopping rule and mode limit. They add up to the signal; the reported modes are all rows but the last, modes plus trend equal the signal, the input is not modified and an instance can be reused. Bad axes, spline kinds or detections are a ValueError.",
     ["inputs", "configurations", "histories"], "all signals and configurations",
     "No test of the repository exercises JitEMD.",
     [J, E], [("emd", J), ("find_extrema, prepare_points, spline_points, check_imf, end_condition", J), ("JitEMD", J)],
     "Bounded: 2-5 free samples, alternating 6, one-parameter families of 7-10 samples, flat runs; at most 3 siftings per mode, ties in later siftings excluded. Source semantics; the numba-compiled code is run on every counterexample and on the validated samples.")
ML, E2, BE = "PyEMD/EMD_matlab.py", "PyEMD/EMD2d.py", "PyEMD/BEMD.py"
prop("C27", "The MATLAB-compatible EMD reconstructs the signal and keeps its limits",
     "EMD_matlab's components are numbered 0 to imfNo-1 (as are the extrema counts and iterations), each has one value per sample, they add up to the signal, which is not modified, and a positive maxImf gives at most that many components, or one and the remainder. Its extrema, zero crossings and envelopes are those of the signal, as in EMD; sifting subtracts the mean of the envelopes, FIXE times, or until FIXE_H consecutive proto-modes conform, or until the mean is small against the amplitude, and never more than maxIteration / MAX_ITERATION times. A time axis of another length or an unknown spline is a ValueError.",
     ["inputs", "configurations"], "all signals, axes, spline kinds, boundary sizes, stopping rules and limits",
     "Three tests run it on a cosine.",
     [ML], [("EMD.emd", ML), ("findExtrema, preparePoints, splinePoints, cubicSpline_3points, stop_sifting", ML)],
     "Bounded: 5-6 free or alternating samples, one-parameter families of 7-9 samples, flat runs, at most 4 siftings; driver with arbitrary extrema, envelopes and verdicts.")
prop("C28", "Image decompositions add up to the image and respect their limits",
     "The components returned by EMD2D and BEMD have the image's shape and add up to the image, which is not modified, for every image (small integer types and constant images included for EMD2D), stopping rule and limit; max_imf = m gives at most m components plus the remainder, and sifting ends as FIXE, FIXE_H, the acceptance test and MAX_ITERATION say. Changing brightness or contrast of an image changes EMD2D's components only by that factor and offset. EMD2D mirrors the image on all sides, finds exactly the interior pixels not exceeded (undercut) by a neighbour, and passes its envelopes through them; BEMD finds exactly the peaks and pits of the image.",
     ["inputs", "configurations"], "all images, shapes, integer types, stopping rules and limits",
     "All tests of the image decompositions are skipped.",
     [E2, BE], [("EMD2D.emd, check_proto_imf, end_condition", E2), ("prepare_image, find_extrema, extract_max_min_spline", E2), ("BEMD.bemd, extract_maxima_positions", BE)],
     "Bounded: driver on 2-6 pixels with arbitrary extrema, envelopes and verdicts, at most 4 siftings; extrema on up to 12 free pixels or 5x6 families; fitted surfaces arbitrary. BEMD's envelopes are not claimed.")
