#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
S = "src/rascal/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Line selection returns exactly the lines that satisfy the request",
 "Loading lines from a line list returns exactly the lines of the requested elements whose wavelength lies within the requested limits (inclusive; the limits are air wavelengths unless vacuum is requested) and whose intensity reaches the requested minimum (one for all, or one per element), reduced to the N brightest of those when N is given, and then thinned only by the minimum separation. "
 "Every returned row carries the element, wavelength and intensity of one and the same line of the list, a wavelength appears once (of several lines of the requested elements at one wavelength the first in the list counts), and the rows are in ascending order of wavelength. "
 "Wavelengths are returned converted to air at the given pressure, temperature and humidity, or unchanged when vacuum is requested.",
 ["inputs", "configurations"], "every line list, element set, wavelength limit, intensity threshold, N, separation and observing condition",
 "Tests load a handful of element/threshold combinations and mostly check that something is returned; they never compare the result with the whole catalogue.",
 ["util.py"], [("load_calibration_lines", "util.py"), ("filter_wavelengths", "util.py"), ("filter_intensity", "util.py")],
 ["return value of load_calibration_lines"])
prop("C02", "A line is dropped as blended exactly when a neighbour is too close",
 "Given wavelengths in ascending order, the separation filter keeps a line exactly when its distance to each adjacent line is at least the minimum separation; the first and last lines have one neighbour and a lone line has none, and any number of lines, including zero, is accepted. "
 "When lines are loaded, the distances are those between the lines that pass all the other filters, in vacuum wavelengths; a separation of zero or less drops nothing.",
 ["inputs"], "every ascending list of wavelengths of any length and every separation",
 "Tests call the filter on a few catalogue selections; lists of length 0, 1, 2, exact ties at the threshold and the interplay with the brightness cut are not sampled.",
 ["util.py"], [("filter_separation", "util.py"), ("load_calibration_lines", "util.py")],
 ["return value of filter_separation", "return value of load_calibration_lines"])
prop("C03", "Air-vacuum conversion follows the NIST modified Edlen equations",
 "Converting a vacuum wavelength to air divides it by, and converting air to vacuum multiplies it by, the refractive index given by the NIST modified Edlen equation at the given temperature (kelvin), pressure (pascal) and relative humidity (percent), the water vapour pressure being that of the NIST IAPWS formula. "
 "Scalars, lists and arrays are converted element by element with the same conditions, the default conditions are 273.15 K, 101325 Pa and 0 % humidity, and the input is left unchanged.",
 ["inputs", "configurations"], "every wavelength and every temperature, pressure and humidity in the range of the equations",
 "Tests compare one or two wavelengths at the default conditions, where humidity is zero and most terms of the equations vanish.",
 ["util.py"], [("edlen_refraction", "util.py"), ("get_vapour_pressure", "util.py"), ("get_vapour_partial_pressure", "util.py"), ("vacuum_to_air_wavelength", "util.py"), ("air_to_vacuum_wavelength", "util.py")],
 ["return values of the two conversion functions"])
prop("C04", "An atlas holds exactly the lines that were added, in parallel columns",
 "Adding elements to an atlas appends, element by element in the given order, exactly the lines that the line loader selects for that element, using the given limits or, when a limit is omitted, the configured limit widened by the range tolerance; non-finite limits are refused. "
 "Adding user lines appends one line per given element with its own wavelength (converted to air only when asked), and intensity (zero when none is given), or refuses inputs of different lengths without changing the lines. "
 "The wavelengths, elements and intensities of an atlas are parallel, in order of addition and as many as its length, and clearing leaves it empty.",
 ["inputs", "histories"], "every sequence of additions and clears, every element list and user line list",
 "Tests build a few atlases and check a length; the pairing and order of the three columns over arbitrary histories are not examined.",
 ["atlas.py"], [("Atlas.add", "atlas.py"), ("Atlas.add_user_atlas", "atlas.py"), ("Atlas.get_lines/get_elements/get_intensities/clear/__len__", "atlas.py")],
 ["Atlas.get_lines/get_elements/get_intensities", "len(Atlas)"], [("atlas_lines", "the lines held, in order of addition", "atlas.py")])
prop("C05", "Removing a wavelength range removes all and only the lines inside it",
 "Removing lines around a wavelength removes every line closer to it than the tolerance and no other line, whatever their number and order, so that lines at exactly the tolerance stay. "
 "The remaining lines keep their order, element and intensity.",
 ["inputs", "histories"], "every atlas, wavelength and tolerance, including adjacent and duplicate lines in the range",
 "Tests remove one line from a small atlas; adjacent or many lines in range and lines on the boundary are not sampled.",
 ["atlas.py", "calibrator.py"], [("Atlas.remove_atlas_lines_range", "atlas.py")], ["Atlas.get_lines after removal"])
prop("C06", "The grid Hough transform yields exactly the points of the input pairs",
 "For every gradient on the evenly spaced grid from the minimum to the maximum slope, ends included, and for every pixel-wavelength pair, the Hough points contain (gradient, wavelength - gradient x pixel) exactly when that intercept lies within the intercept limits, limits included. "
 "There are no other points, and points added from outside are appended after the existing ones unaltered; objects that are neither point arrays nor Hough transforms are refused.",
 ["inputs", "configurations"], "every list of pairs, number of gradients and slope/intercept limits",
 "Tests run one transform on a synthetic set and check that points exist; that none is missing, duplicated or attributed to another pair is not checked.",
 ["houghtransform.py"], [("HoughTransform.generate_hough_points", "houghtransform.py"), ("HoughTransform.add_hough_points", "houghtransform.py"), ("HoughTransform.set_constraints", "houghtransform.py")],
 ["hough_points after the transform"], [("hough_points", "N x 2 array of (gradient, intercept)", "houghtransform.py")])
prop("C07", "The brute-force Hough transform yields the lines through every two pairs",
 "For every two pixel-wavelength pairs at different pixels the brute-force Hough points contain the gradient and intercept of the line through both, once per pair of pairs, exactly when both lie strictly inside the slope and intercept limits. "
 "Two pairs at the same pixel give no point, and nothing else is in the list, whatever the order of the input.",
 ["inputs", "configurations"], "every list of pairs in every order, and all slope/intercept limits",
 "Tests check that the call returns; completeness over all combinations, unsorted input and repeated pixels are not examined.",
 ["houghtransform.py"], [("HoughTransform.generate_hough_points_brute_force", "houghtransform.py")], ["hough_points after the brute-force transform"])
prop("C08", "Hough bins are ranked completely, by descending count, at their centres",
 "Binning the Hough points produces the two-dimensional histogram of all gradients and intercepts on the requested number of bins, and a ranked list of lines with one entry per bin. "
 "Each entry is the (gradient, intercept) centre of its bin, every bin appears exactly once, and the counts of the bins along the list never increase.",
 ["inputs", "configurations"], "every set of Hough points and every number of bins in each direction, equal or not",
 "Tests use one histogram shape and look only at types or lengths; rank order and centres for unequal bin numbers are not checked.",
 ["houghtransform.py"], [("HoughTransform.bin_hough_points", "houghtransform.py"), ("HoughTransform._rank_bins", "houghtransform.py")],
 ["hist, edges and ranked lines after binning"], [("hough_lines", "bin centres in order of rank", "houghtransform.py")])
prop("C09", "A saved Hough transform is restored in full and used after loading",
 "Saving a Hough transform and loading the file into another object restores the points, the histogram, both sets of bin edges, the four limits and the ranked lines, in either file format, with or without the extension in the name given to load; an unknown file type is refused. "
 "Loading one into a calibrator makes the loaded points and ranked lines those used by the next fit, and asking for the content instead of a file returns the same content for each requested format and writes nothing.",
 ["inputs", "configurations", "histories"], "every transform content, file name and format combination, and a load before or after other work on the calibrator",
 "Tests save and load one transform and compare a few fields in one format; the use of loaded data in a fit is not observed.",
 ["houghtransform.py", "calibrator.py"], [("HoughTransform.save", "houghtransform.py"), ("HoughTransform.load", "houghtransform.py"), ("Calibrator.save_hough_transform/load_hough_transform", "calibrator.py")],
 ["fields of the loading object", "return value of save with to_disk=False"])
prop("C10", "The candidate pairs always are the detected peaks times the current atlas",
 "After any sequence of setting, extending, pruning or clearing the atlas of a calibrator or changing its search range, its pixel-wavelength pairs are exactly every combination of a detected peak and a line now in the atlas, each once, peaks varying slowest. "
 "With the polygon constraint on, they are exactly those of the combinations that lie within the polygon spanned by the search limits widened by the candidate tolerance.",
 ["histories", "inputs"], "every history of atlas and search-range changes made through the calibrator, every peak list and atlas",
 "Tests check the number of pairs after one set_atlas; stale pairs after later changes are not looked for.",
 ["calibrator.py"], [("Calibrator._generate_pairs", "calibrator.py"), ("Calibrator.set_atlas/add_atlas/add_user_atlas/remove_atlas_lines_range/clear_atlas", "calibrator.py"), ("Calibrator.set_hough_properties", "calibrator.py")],
 ["pairs of the calibrator"], [("pairs", "N x 2 array of (pixel, wavelength)", "calibrator.py")])
prop("C11", "Settings given are stored, settings omitted are kept, derived limits follow",
 "Every calibrator, Hough and fitting setting (logging aside) that is given explicitly takes that value, and every one that is omitted keeps its previous value, or its documented default the first time; no call alters any other setting, and a minimum number of matches, a peak utilisation or a fit error outside its allowed range is refused. "
 "The intercept limits are the minimum wavelength minus and plus the range tolerance, and the slope limits are the wavelength span minus and plus twice the sum of the range and linearity tolerances, divided by the extent of the pixel list. "
 "The number of pixels defaults to the length of the spectrum, or 1.1 times the largest peak without one, and the pixel list to 0, 1, 2, ... up to that number.",
 ["configurations", "histories"], "every combination of given and omitted settings in every call history, and all numeric values",
 "Tests set one or two settings per call on fresh objects; the 2^k combinations of given/omitted over histories cannot be enumerated.",
 ["calibrator.py"], [("Calibrator.set_calibrator_properties", "calibrator.py"), ("Calibrator.set_hough_properties", "calibrator.py"), ("Calibrator.set_ransac_properties", "calibrator.py"), ("Calibrator.__init__", "calibrator.py")],
 ["attributes of the calibrator after each call"])
prop("C12", "Fit candidates are the pairs near a Hough line, best-supported lines per peak",
 "The candidate set of a Hough line is every pixel-wavelength pair whose wavelength is within the candidate tolerance (inclusive) of the line at that pixel and no other pair, each with a Gaussian weight of its distance whose width is 1.1775 times the sum of the range and linearity tolerances. "
 "For every peak that has candidates, the pairs offered to the fit are its min(N, available) distinct wavelengths of largest total support over all candidate sets (total weight when weighted, number of occurrences otherwise), strongest first; every offered pair is a candidate pair and peaks come in ascending order.",
 ["inputs", "configurations"], "every pair list, set of Hough lines, tolerance, N and weighting",
 "Tests check only that fitting converges on one or two spectra; which candidates are chosen is never compared with a definition.",
 ["calibrator.py", "util.py"], [("Calibrator._get_candidate_points_linear", "calibrator.py"), ("Calibrator._get_most_common_candidates", "calibrator.py"), ("gauss", "util.py")],
 ["candidates, candidate_peak and candidate_arc of the calibrator"])
prop("C13", "Matching assigns peaks and lines one to one, the closest first",
 "Given candidate lines per peak and a solution, the matching first takes for each peak its candidate closest to the fitted wavelength, and then keeps for each line so taken only the peak that is closest. "
 "The result is three parallel sequences of error, peak and line: no peak and no line occurs twice, every pair is one of the candidates, the error is the absolute difference between the fitted wavelength and the line, lines are in ascending order, and no line taken by some peak is lost.",
 ["inputs"], "every candidate table, peak list and coefficient vector, including ties and shared lines",
 "Tests never call the matching directly; conflicts between peaks for one line occur only by chance in the sampled fits.",
 ["calibrator.py"], [("Calibrator._match_bijective", "calibrator.py")], ["return value of the matching", "matched peaks and lines after a fit"])
prop("C14", "A returned fit is internally consistent and obeys the acceptance limits",
 "Whenever a fit returns, its matched peaks and matched lines are parallel lists of equal length in which every peak is a candidate peak, every line a candidate line, and none occurs twice; each residual is the solution (in the requested polynomial family) at the peak minus the line, set to the inlier tolerance where larger than it in size, and the rms is the root mean square of the residuals. "
 "The utilisations are the number of matches over the number of peaks and over the number of atlas lines, and the solution respects the minimum matches, the minimum peak utilisation and the minimum fit error set. "
 "What is returned is also what the calibrator holds afterwards.",
 ["inputs", "configurations", "schedules"], "every input, every configuration and every outcome of the random draws",
 "Tests run a few fits with fixed seeds and compare the coefficients loosely; the consistency of the outputs over all draws and rejected trials is out of their reach.",
 ["calibrator.py"], [("Calibrator.fit", "calibrator.py"), ("Calibrator._solve_candidate_ransac", "calibrator.py"), ("Calibrator._match_bijective", "calibrator.py")],
 ["return value of fit", "attributes of the calibrator after fit"], [("matched_peaks, matched_atlas", "matches of the best fit so far", "calibrator.py")])
prop("C15", "The robust fit returns the minimiser of its loss in the original units",
 "The robust polynomial fit minimises the Huber loss of the residuals of all the given points, both axes divided by their standard deviations, over polynomials of the requested degree, and returns the minimiser converted back to the original units, lowest order first: evaluating it at any x gives the y-scale times the normalised polynomial at x over the x-scale. "
 "Polynomial models evaluate the sum of coefficient times power of x with the highest order first, for scalars and arrays, and need exactly degree + 1 coefficients; the derivative of a polynomial has the coefficients i times the i-th one.",
 ["inputs"], "every data set, degree, coefficient vector and initial guess",
 "Tests fit noise-free low-degree polynomials; wrong scaling of one order or a dropped point would show only in other degrees or scales.",
 ["models.py", "util.py"], [("robust_polyfit", "models.py"), ("normalise_input", "models.py"), ("polynomial", "models.py"), ("poly_cost_function", "models.py"), ("_derivative", "util.py")],
 ["return value of robust_polyfit and of the polynomial models"])
prop("C16", "Matching peaks to the atlas with a solution finds all and only close lines",
 "Matching the peaks to the atlas with a solution pairs a peak exactly when some atlas line is nearer to its fitted wavelength than the tolerance, gives it the closest such line, and keeps one peak per line, the closest one. "
 "The residuals are line minus solution at the peak, the rms is their root mean square, the utilisations are the number of matches over the number of peaks and of atlas lines, and all refer to the coefficients returned: the given ones when no refinement or refit is asked, else the refined ones. "
 "The coefficients passed in are not altered, and what is returned is what the calibrator holds afterwards.",
 ["inputs", "configurations"], "every peak list, atlas, coefficient vector, tolerance and combination of refine and refit",
 "Tests call it after one fit and check that it returns; ambiguous matches, unmatched peaks and the two flags' combinations are not compared with a definition.",
 ["calibrator.py"], [("Calibrator.match_peaks", "calibrator.py"), ("Calibrator._match_bijective", "calibrator.py")], ["return value of match_peaks", "attributes of the calibrator afterwards"])
prop("C17", "Manual edits of the matched pairs keep peaks and lines paired",
 "Adding a pixel-wavelength pair inserts exactly that pair at the place of its pixel, so that pairs in ascending pixel order stay so, removing one by its position deletes exactly the pair listed there, and the listing gives every pair with its position; all other pairs keep their partner and order. "
 "A manual refit fits the given pairs, or the held ones if none are given, with the given degree, or that of the given or held coefficients, refuses unequal or too few pairs, and returns and stores coefficients, pairs, residuals (line minus solution) and rms that belong together.",
 ["histories", "inputs"], "every sequence of additions, removals, listings and refits, every pair and position",
 "Tests add and remove one pair and compare lengths; positions at the ends, between and repeated edits are not sampled.",
 ["calibrator.py"], [("Calibrator.add_pix_wave_pair", "calibrator.py"), ("Calibrator.remove_pix_wave_pair", "calibrator.py"), ("Calibrator.get_pix_wave_pairs", "calibrator.py"), ("Calibrator.manual_refit", "calibrator.py")],
 ["matched peaks and lines of the calibrator", "return values"])
prop("C18", "A synthetic spectrum places each in-range line where the model puts it",
 "For a synthetic spectrum with coefficients in ascending order, the pixels returned for wavelengths satisfy model(pixel) = wavelength for a linear or higher-order model, returned with exactly the wavelengths strictly inside the limits, in the order given; a constant model returns its constant. "
 "The wavelength limits always have the minimum below the maximum: a setting given replaces, an omitted one is kept, and a non-float value or an inverted range is refused without any change.",
 ["inputs", "histories"], "every coefficient vector, wavelength list and history of limit changes",
 "Tests check types, errors and one quadratic; the agreement of model and pixels for each degree and the state after a refused change are not covered.",
 ["synthetic.py", "models.py"], [("SyntheticSpectrum.get_pixels", "synthetic.py"), ("SyntheticSpectrum.set_model", "synthetic.py"), ("SyntheticSpectrum.set_wavelength_limit", "synthetic.py")],
 ["return value of get_pixels", "min_wavelength and max_wavelength"])
prop("C19", "Refined peaks are the in-window Gaussian centres in detector pixels",
 "Refining the peaks of a spectrum fits a Gaussian to the finite samples of the window that reaches from window-width pixels below each peak up to, and not including, window-width pixels above it, cut at the ends of the spectrum and scaled to the largest of them, and returns the fitted centre in pixels of the whole spectrum. "
 "A peak is left out exactly when the fit fails (also for want of three finite samples), the fitted height is negative, the centre falls left of its window or off the spectrum, or it coincides with the centre fitted before it; the order of the rest is kept and neither the spectrum nor the peak list is altered.",
 ["inputs"], "every spectrum (also with samples that are not finite), every list of peaks on it (also at the edges and with overlapping windows) and every window width above zero",
 "Tests refine the peaks of one or two well-behaved spectra away from the edges.",
 ["util.py"], [("refine_peaks", "util.py"), ("gauss", "util.py")], ["return value of refine_peaks"])
prop("C20", "Plotting never changes the calibrator, the atlas or the data it is given",
 "Drawing the arc, the search space, the fit or the lines of a line list, with either library and any options, leaves every result, setting, peak, pair and spectrum sample of the calibrator, the atlas and the arrays, lists and coefficients passed in as they were. "
 "Only the record of which plotting library was imported may change.",
 ["inputs", "configurations"], "every calibrator state, plotting library and combination of plotting options",
 "Tests draw figures and look at files; they do not compare the calibrator before and after, for any option.",
 ["plotting.py", "calibrator.py"], [("plot_arc", "plotting.py"), ("plot_search_space", "plotting.py"), ("plot_fit", "plotting.py"), ("plot_calibration_lines", "plotting.py")], ["attributes of the calibrator before and after each plot"])
prop("C21", "Known pairs are validated, kept as given and part of every trial fit",
 "Setting known pixel-wavelength pairs accepts scalars, lists or arrays of equal length, keeps them as numbers in the given order and replaces the earlier ones; unequal lengths and not-a-number values are refused with the earlier ones unchanged. "
 "While pairs are set, every trial polynomial of a fit is fitted to the drawn pairs and all the known pairs, each with its own wavelength.",
 ["inputs", "schedules", "histories"], "every list of known pairs and every random draw of the fit",
 "Tests set pairs and check one refusal; whether each of the thousands of random trials contains the pairs is not observed.",
 ["calibrator.py"], [("Calibrator.set_known_pairs", "calibrator.py"), ("Calibrator._solve_candidate_ransac", "calibrator.py")], ["pix_known and wave_known", "points handed to the trial polynomial fit"])
prop("C22", "Data handed in by the caller are never modified",
 "Peaks, spectra, line lists, coefficient vectors and other arrays or lists passed to the library are unchanged when the call ends, whatever its options. "
 "A calibrator keeps its own copy of peaks and spectrum, so later changes by the caller do not reach it.",
 ["inputs", "configurations", "histories"], "every public function and method that takes arrays or lists, and all values",
 "Tests do not compare the arguments before and after a call.",
 ["calibrator.py", "util.py", "models.py", "atlas.py", "synthetic.py", "houghtransform.py"], [("Calibrator.__init__", "calibrator.py"), ("refine_peaks", "util.py"), ("robust_polyfit", "models.py"), ("match_peaks, manual_refit, fit", "calibrator.py")], ["the argument objects after each call"])
prop("C23", "A fit ends after at most the requested number of trials",
 "A fit with a finite number of tries evaluates at most that number of random draws and then returns or reports failure.",
 ["schedules"], "every input and every sequence of random draws",
 "Tests that hang are only seen as time-outs; termination over all random sequences cannot be sampled.",
 ["calibrator.py"], [("Calibrator._solve_candidate_ransac", "calibrator.py")], ["return of fit"])
prop("C24", "The same seed and inputs give the same fit",
 "Two runs with the same seed, inputs and settings return identical results.",
 ["schedules", "inputs"], "every seed and input",
 "Tests repeat one seeded run.",
 ["calibrator.py"], [("Calibrator.set_calibrator_properties", "calibrator.py")], ["return value of fit of two runs"])
prop("C25", "A fit recovers the true dispersion solution of a well-posed spectrum",
 "For peaks generated from a smooth monotonic dispersion within the configured search range, the returned solution agrees with the true one within the stated tolerance.",
 ["inputs", "schedules"], "every smooth dispersion solution within the search range and every random draw",
 "Tests try a few lamps and seeds; success is a matter of probability.",
 ["calibrator.py"], [("Calibrator.fit", "calibrator.py")], ["return value of fit"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
