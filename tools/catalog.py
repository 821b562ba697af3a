#!/usr/bin/env python3
"""The one place where the properties are written down: writes properties.jsonl and MANIFEST.json.

A property with a module in pbt/props/ is claimed; the others are listed under not_applicable."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "swprocess/"
A1, ATS, SEN, SRC, WT, MW, WF, SNR, PK, PS, IV, IA, RX, UT, RG = (S + n + ".py" for n in (
    "array1d", "activetimeseries", "sensor1c", "source", "wavefieldtransforms", "masw", "maswworkflows", "snr", "peaks",
    "peakssuite", "inversion", "interact", "regex", "utils", "register"))

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, observe=observe))


prop("C01", "An array's geometry is independent of sensor supply order",
     "An array built from any set of distinct sensors and a source lists them in increasing position with every recording, offset, spacing and kind attached to the "
     "right sensor, whatever the order in which they were supplied. Offsets are absolute distances between source and sensor along the line of the array, and the array matrix holds one row per sensor in position order. "
     "Inconsistent sensors (two at one position, unequal sampling) are refused.",
     ["inputs"], "every number, spacing, position and supply order of sensors, and every source position",
     "Tests build a handful of arrays in increasing order with a near-side source; permutations, far-side and interior sources are not sampled.",
     [A1, SEN, SRC], [("sorting of sensors by position", A1 + ": Array1D.__init__, _sort"), ("position, offset, spacing and matrix views", A1 + ": Array1D properties")],
     "property-based testing: permutation metamorphic relation + reference geometry", "Seeded random arrays against an independent geometry model.")
prop("C02", "Stacking is a stack-count-weighted mean, independent of order",
     "Stacking records yields, sample by sample, the mean weighted by each record's number of stacks, and the total count is the sum of the counts. "
     "The result does not depend on the order or grouping of the records, and records which cannot be stacked are refused without changing anything.",
     ["inputs", "histories"], "every sequence of stackings of records with any stack counts and samples",
     "Tests stack two or three short records with fixed counts; order, grouping and refusal atomicity quantify over histories.",
     [ATS, SEN], [("weighted running mean", ATS + ": stack_append, stack_trace"), ("compatibility test", ATS + ": _is_similar / is_similar")],
     "property-based testing: weighted-mean reference model over histories", "Exact model in float64 with stated tolerance.")
prop("C03", "Trimming keeps exactly the requested window and its timing",
     "Trimming keeps exactly the samples between the two requested times (to the nearest sample) with their amplitudes, times relative to the trigger, and pre-trigger delay; repeated trims behave as one on the "
     "remaining record. An illogical window is refused and leaves the recording as it was.",
     ["inputs", "histories"], "every record, pre-trigger length and history of trim requests",
     "Tests trim a few fixed records once; the interplay of delay, rounding and repeated trims is unsampled.",
     [ATS, A1], [("trim with delay bookkeeping", ATS + ": trim"), ("array-wide trim", A1 + ": trim")],
     "property-based testing: history model of (time, amplitude) pairs", "Reference model over sequences of trims.")
prop("C04", "Zero padding reaches the requested frequency step without altering the data",
     "Padding only appends zeros, and the record's reported frequency step, together with its decimation factor, reaches the requested step on the true frequency grid. "
     "A refused request changes nothing, and the transform of the padded record is the spectrum of the original record on the new grid.",
     ["inputs", "histories"], "every record length, sampling interval, requested step and sequence of requests",
     "Tests pad a few records where the step divides evenly; odd ratios, repeated padding and refusals are not explored.",
     [ATS, A1], [("padding and multiple", ATS + ": zero_pad, df, multiple"), ("array-wide padding", A1 + ": zero_pad")],
     "property-based testing: spectral reference + history model", "Direct DFT of the original record as the oracle.")
prop("C05", "Cross-correlation alignment recovers the true relative shift",
     "Cross-correlation of two records is the textbook sum at every lag, and the aligned copy is the second record shifted by the lag of maximum correlation and filled with zeros. "
     "A record that is a shifted copy of another is brought back exactly into alignment, and incompatible records are refused.",
     ["inputs"], "every pair of equal-length records and every shift",
     "Tests correlate two hand-made records; the general definition and both shift directions quantify over all inputs.",
     [ATS], [("correlation and shifting", ATS + ": crosscorr, crosscorr_shift, from_cross_stack")],
     "property-based testing: brute-force correlation oracle", "O(n^2) reference correlation, ties accepted.")
prop("C06", "Writing an array to SU and reading it back gives the same array",
     "An array written to Seismic Unix and read back has the same samples, sampling interval, positions, source position, stack counts and pre-trigger delay. "
     "This holds for every array whose values the format can hold (other values are refused, never altered), and the reader's coordinate maps apply on top.",
     ["inputs"], "every array representable in the format: coordinates, stacks, delay, sampling interval, supply order",
     "Tests round-trip one array with one stack and whole-metre coordinates.",
     [A1, SEN, ATS], [("SU writer", A1 + ": to_file, _to_su"), ("SU reader", SEN + ": from_trace, _from_trace")],
     "property-based testing: write/read round trip", "Byte-level files via ObsPy, values restricted to what the format holds.")
prop("C07", "Coordinates, stacks and delay are read from file headers correctly",
     "Receiver and source coordinates, number of stacks, delay and sampling read from SU, SEGY and SEG2 files equal the values the format's definition gives, for every coordinate scalar including zero, negative and positive ones. "
     "Unusable headers (unsupported units) are refused, and headers are ignored entirely when asked.",
     ["inputs"], "every header content allowed by each format",
     "Tests read a few stored field files that all use the same scalar and y = 0.",
     [SEN, ATS, SRC, A1], [("header decoding", SEN + ": _from_trace; " + A1 + ": from_files, _from_traces"), ("delay and stacks decoding", ATS + ": from_trace")],
     "property-based testing: byte-level file generator vs. format definition", "Files built independently of the project; SEG2 written byte by byte.")
prop("C08", "Files of one shot location stack correctly whatever the trace order",
     "Reading several files of the same geometry gives, for each receiver, the stack-weighted mean of that receiver's traces over all files, whatever order the traces have in each file and whatever maps and read options are in force. "
     "Files that cannot belong together (another source, other receivers, a different number of traces) are refused.",
     ["inputs", "configurations"], "every number of files, trace order per file, stack count, coordinate map and read option",
     "Tests stack copies of files with identical trace order and default options.",
     [A1], [("multi-file stacking", A1 + ": from_files"), ("source/receiver consistency", A1 + ": _from_traces, is_similar")],
     "property-based testing: file-set generator vs. weighted-mean model", "Independent trace orders per file.")
prop("C09", "Muting removes exactly what lies outside the lines",
     "Muting an array leaves every sample between the two lines unchanged apart from the requested taper, and sets every sample outside to zero, for lines of any slope running through or beyond the record, measured from the trigger. "
     "The timing and geometry of the array do not change.",
     ["inputs"], "every array (pre- or post-trigger), pair of lines and taper",
     "Tests mute one array with two lines and compare figures or fixed values.",
     [A1], [("window construction per sensor", A1 + ": mute")],
     "property-based testing: pointwise mute model", "Boundary sample tolerance stated.")
prop("C10", "Offset trimming keeps exactly the sensors within the range",
     "Restricting an array to a range of source offsets keeps exactly the sensors whose distance to the source lies strictly between the limits, with their recordings, for a source on either side or inside. "
     "The result behaves like an array built from those sensors only, and a range leaving none is refused.",
     ["inputs", "histories"], "every geometry, source position and sequence of ranges",
     "Tests restrict one array with a near-side source once.",
     [A1], [("offset filter", A1 + ": trim_offsets")],
     "property-based testing: filter model + differential vs. smaller array", "Any source side.")
prop("C11", "Each wavefield transform computes its definition",
     "The dispersion image of each transform (frequency-wavenumber, phase shift, frequency-domain beamformer, slant stack) equals its textbook definition at the reported frequencies and velocities, for every array, weighting, steering and axis. "
     "Reported axes cover exactly the requested bands, and neither the array nor the settings are modified.",
     ["inputs", "configurations"], "every array geometry, record, transform, weighting, steering, velocity axis and frequency band",
     "Tests compare one stored array's image against stored values of the same code, or check a single frequency.",
     [WT], [("transforms", WT + ": FK, PhaseShift, FDBF, SlantStack transform()"), ("frequency/velocity axes", WT + ": from_array, _frequency_indices")],
     "property-based testing: differential vs. slow textbook reference", "Direct double-sum references in float64.")
prop("C12", "Transforms respect physical symmetries and recover known waves",
     "Mirroring or translating the array, rescaling the record, and delaying the record leave the image's dispersion content unchanged as physics requires, and the transforms are consistent with linear superposition. "
     "For a synthetic wave with a known dispersion curve the image's maximum is at the true velocity.",
     ["inputs"], "every geometry and recorded wave, every dispersion curve inside the resolvable range",
     "Tests use one synthetic or field record; symmetries quantify over all geometries.",
     [WT, A1], [("steering and weighting", WT + ": FDBF, PhaseShift, FK"), ("offsets and positions", A1 + ": position, offsets")],
     "property-based testing: metamorphic relations and synthetic-wave recovery", "Periodic synthetic waves with exact spectra.")
prop("C13", "Normalisation, peak search and image stacking act on power alone",
     "Normalising an image divides each column or the whole image by its stated maximum, repeatably; the peak search gives for each frequency the velocity of greatest power, whatever was done to the image before; stacked images are the mean weighted by their counts, independent of order and of whether the running image was looked at (normalised) in between. "
     "A request with an unknown normalisation is refused and leaves the image unchanged.",
     ["inputs", "histories"], "every image (real or complex) and sequence of normalisations, searches, refusals and stackings",
     "Tests normalise one small image once per method.",
     [WT], [("normalisation", WT + ": normalize"), ("peak search", WT + ": find_peak_power"), ("image stacking", WT + ": DispersionPowerSpectrum / stack")],
     "property-based testing: stateful model of the image", "Histories of mixed requests.")
prop("C14", "A workflow equals its documented steps done one by one",
     "Running a processing workflow on files gives the same image and signal-to-noise as carrying out the configured steps (read, offsets, trim, mute, signal-to-noise, pad, transform, stack) by hand in the documented order, with every setting honoured. "
     "Unknown workflow names or settings are refused.",
     ["inputs", "configurations"], "every set of files and combination of settings for every workflow",
     "Tests run each workflow on one data set with most steps off.",
     [WF, MW, WT, A1, SNR], [("step order", WF + ": TimeDomainWorkflow, FrequencyDomainWorkflow, SingleWorkflow"), ("settings dispatch", MW + ": run, create_settings_dict")],
     "property-based testing: differential vs. step-by-step execution", "Interactive muting driven by a scripted user.")
prop("C15", "Signal-to-noise is the true spectral ratio at the stated frequencies",
     "The signal-to-noise ratio at each reported frequency is the ratio of the mean spectral amplitude of the signal window over that of the noise window across sensors, whatever the two lengths, starting times and padding. "
     "The frequencies reported are the true frequencies of the spectra compared.",
     ["inputs", "configurations"], "every pair of windows, padding and frequency band",
     "Tests compare a single noise/signal pair of equal length against stored values.",
     [SNR, ATS, A1], [("ratio and interpolation", SNR + ": SignaltoNoiseRatio.from_array1ds")],
     "property-based testing: direct DFT reference", "Independent lengths and delays.")
prop("C16", "Peak sets survive JSON unchanged, whatever was rejected or missing",
     "A set of dispersion peaks written to JSON and read back is the same set: identifiers, frequencies, velocities, extra attributes, missing values and several peaks per frequency; rejected points do not come back. "
     "Appending adds one set and keeps the others, and writing never changes the peaks or the caller's data.",
     ["inputs", "histories"], "every peak set and every sequence of write, append, read and combine",
     "Tests write two fixed sets without missing values.",
     [PK, PS], [("writing/reading", PK + ": to_json, from_json, from_dict, to_dict"), ("collections", PS + ": to_json, from_json, from_dict")],
     "property-based testing: write/append/read round trips", "Arbitrary identifiers including non-ASCII.")
prop("C17", "Rejection removes exactly the points the rule names",
     "Every rejection (limits outside, box inside, any quantity) removes exactly the points the rule names and nothing else; points once rejected stay rejected and all views agree on what remains. "
     "The outcome does not depend on the order of the rejections, nor on whether they are applied to a set or to a collection.",
     ["inputs", "histories"], "every peak set, limit, box, quantity and sequence of rejections",
     "Tests apply one rejection per quantity to a small set.",
     [PK, PS], [("limits and boxes", PK + ": reject_limits_outside, reject_box_inside, _reject_*"), ("collection-wide rejection", PS + ": reject_*")],
     "property-based testing: stateful set model", "Histories of up to eight rejections.")
prop("C18", "Curves are discretised from valid points, best peak per frequency",
     "Discretising a collection interpolates linearly each set's valid points (the most powerful valid peak at each frequency) in the requested quantities, and is missing outside the set's range. "
     "Nothing is extrapolated and the sets are unchanged.",
     ["inputs"], "every collection of sets, quantity pair and list of abscissae",
     "Tests discretise two monotonic sets without rejected points.",
     [PS, PK], [("interpolation", PS + ": to_array"), ("best peak per frequency", PK + ": simplify_mpeaks")],
     "property-based testing: reference interpolation", "Ties and duplicate abscissae excluded.")
prop("C19", "Statistics are those of the sets that have data, no value is invented",
     "The mean, sample standard deviation and correlation at each abscissa are those over the sets having a valid value there, and abscissae with fewer values than required are dropped. "
     "The order of the sets does not matter and fewer than three sets are refused.",
     ["inputs", "configurations"], "every collection, list of abscissae and option",
     "Tests use three full sets covering all abscissae.",
     [PS], [("statistics", PS + ": statistics, _drop, _drop_indices")],
     "property-based testing: reference statistics", "Correlations only where defined by complete or substituted data.")
prop("C20", "Array-method result files are parsed exactly",
     "Every valid row of a result file and only those becomes a peak of the set named by its time and process, with frequency, velocity and all extra columns as written, for each supported version, process and component. "
     "Rows marked invalid are ignored and do not stall the reader, requested times and frequencies are matched by their whole text, and unsupported files are refused.",
     ["inputs"], "every file of the supported format: times, frequencies, number of maxima, components, valid flags, special values",
     "Tests parse stored files where all rows are valid and no time or frequency is a prefix of another.",
     [PK, PS, RX], [("row expressions", RX + ": get_peak_from_max, get_all, get_nmaxima"), ("parsing", PK + ": _from_max, from_max; " + PS + ": from_max")],
     "property-based testing: file generator vs. model", "Files generated line by line.")
prop("C21", "A collection holds each identifier once and keeps every set intact",
     "A collection keeps sets in the order they were added, never holds two sets of one identifier, and refuses anything else leaving itself unchanged. "
     "Combining collections or files gives the sets of each in order, and what one file contains never affects how another is read.",
     ["inputs", "histories"], "every sequence of additions, combinations and file reads, accepted or refused",
     "Tests add two sets and one duplicate.",
     [PS, PK], [("membership", PS + ": append, _check_input"), ("combination", PS + ": from_peaks, from_peakssuite, from_max, from_json")],
     "property-based testing: stateful list/set model", "Refusals are checked for atomicity.")
prop("C22", "Interactive trimming rejects exactly the confirmed boxes",
     "In interactive trimming exactly the points inside the boxes the user confirmed are rejected, on the axis they were drawn on; undone boxes reject nothing, and unclear clicks or answers are asked for again. "
     "Quitting keeps what was confirmed before. All along the figure shows the points still kept, those marked for rejection and the resolution limits asked for, over an unchanged range.",
     ["histories", "inputs"], "every sequence of user clicks and answers on one or several axes",
     "Tests cannot click; the interactive loop is not exercised at all.",
     [PS, IA], [("interaction loop", PS + ": interactive_trimming"), ("box drawing", PS + ": _draw_box; " + IA + ": ginput_session")],
     "property-based testing: scripted user vs. model of the dialogue", "User events are generated; matplotlib's own event delivery is replaced.")
prop("C23", "Extracted records contain exactly the requested time span",
     "Extraction writes, for every requested station and span, one file whose samples are exactly the recorded ones within the span, joined across the hourly files, in the folder asked for. "
     "A span that ends before it starts or an unreadable request is refused.",
     ["inputs", "configurations"], "every request table, span across hours and days, station and sampling",
     "Tests extract one fixed span from stored files.",
     [UT], [("extraction", UT + ": extract_mseed")],
     "property-based testing: generated hourly files vs. sample model", "Hourly files written with ObsPy at low sampling rates.")
prop("C24", "Copies are equal and independent, and equality sees every difference",
     "A copy of a recording, sensor, source or array is equal to the original, whatever was done to the original before, and later changes to either never show in the other. "
     "Two objects compare equal exactly when their observable content is the same (samples and peaks up to rounding), and compare unequal to anything else without failing.",
     ["histories", "inputs"], "every object reachable by a history of operations, and every later operation on either copy",
     "Tests copy fresh objects and compare a few attribute changes.",
     [ATS, SEN, SRC, A1, PK, PS], [("copies", ATS + ": from_activetimeseries; " + SEN + ": from_sensor1c; " + A1 + ": from_array1d; " + SRC + ": from_source"), ("equality", "__eq__ of each class, is_similar")],
     "property-based testing: copy/mutate histories", "State compared through public attributes.")
prop("C25", "Resolution limits are consistent in every domain",
     "The array resolution limits (smallest and largest wavelength) drawn or returned for any pair of quantities describe the same two physical curves: every point on a curve has that wavelength. "
     "Unsupported quantities are refused.",
     ["inputs", "configurations"], "every pair of limits, supported quantity pair and range",
     "Tests check one pair of quantities with one set of limits.",
     [PS], [("limit curves", PS + ": calc_resolution_limits, plot_resolution_limits")],
     "property-based testing: algebraic invariant", "Wavelength recomputed from every returned point.")
prop("C26", "Interactive picks are the user's own clicks",
     "The points returned by a picking session are the user's last clicks on each request until they confirm; lines picked for muting are those the user clicked, on the side asked for, whichever axis is time. "
     "Empty answers are asked for again and automatic picks obey the stated threshold.",
     ["histories", "inputs"], "every sequence of clicks, key presses and plot orientations",
     "Tests cannot click; interactive code paths are not run.",
     [IA, A1], [("sessions", IA + ": ginput_session"), ("mute and pick dialogues", A1 + ": interactive_mute, auto_pick_first_arrivals, manual_pick_first_arrivals")],
     "property-based testing: scripted user vs. model", "Matplotlib event delivery is replaced by a script.")
prop("C27", "Least-squares solution and covariance satisfy their defining equations",
     "One inversion step and the posterior covariance satisfy the Bayesian linear least-squares equations (information form) for every well-posed problem, and the iteration applies the step until asked to stop. "
     "Inputs are not modified.",
     ["inputs"], "every well-conditioned linear or non-linear problem, prior and data covariance",
     "Tests do not exercise the inversion module with general covariances.",
     [IV], [("iterative algorithm", IV + ": leastsquare_iterativealgorithm"), ("posterior covariance", IV + ": leastsquare_posterioricovmatrix")],
     "property-based testing: differential vs. information form", "Well-conditioned matrices by construction.")
prop("C28", "Figures show exactly the data",
     "A plotted peak set shows exactly its valid points in the chosen quantities, a waterfall shows every trace at its own position with its own times, and a plotted image shows the normalised power with the axes it was computed on. "
     "Drawing never changes the peaks, arrays, styles or axes drawn (the power of an image may be left normalised, and can be recovered).",
     ["inputs", "configurations"], "every peak set, collection, array and image, with every plotting option",
     "Tests only check that plotting does not crash or need a person to look at the figure.",
     [PK, PS, A1, WT], [("peak plots", PK + ": plot; " + PS + ": plot"), ("waterfall", A1 + ": waterfall, plot"), ("image plot", WT + ": plot, plot_snr")],
     "property-based testing: figure contents read back vs. data", "Artists are read through matplotlib's public accessors.")
prop("C29", "A settings dictionary is faithful, fresh and round-trips",
     "The settings created from keyword values contain exactly those values in their place and the documented defaults elsewhere, each call gives an independent dictionary, and the dictionary read back from JSON text gives the same processing. "
     "Running a workflow never changes the settings it was given.",
     ["configurations", "histories"], "every combination of settings, files and runs",
     "Tests create one dictionary with defaults.",
     [MW, WF, WT], [("settings", MW + ": create_settings_dict, run")],
     "property-based testing: dictionary model + before/after comparison", "All documented keys drawn independently.")
prop("C30", "Pilot cross-correlation preserves moveout between sensors",
     "Correlating vibratory recordings with the pilot gives, for every sensor, the correlation of its record with the pilot, on one time axis common to all sensors, so that relative arrival times between sensors are preserved. "
     "Each sensor keeps its position and stack count.",
     ["inputs"], "every pilot sweep, set of delays and geometry",
     "Tests do not run the correlation workflow.",
     [A1, WF], [("pilot correlation", A1 + ": Array1DwSource.xcorrelate, from_files"), ("workflow", WF + ": xcorr workflow")],
     "property-based testing: brute-force correlation oracle", "Constant lag common to all sensors is accepted.")
prop("C31", "A registered name stands for the class last registered under it",
     "A workflow or transform registered under a name is the one created and run wherever that name is given from then on; the registration hands the class back and replaces only that name. "
     "Names are taken exactly, an unknown one is refused, and the registries of workflows and transforms never affect one another.",
     ["histories", "inputs"], "every sequence of registrations, replacements and look-ups in every registry, under any names",
     "The test registers one name in one registry and replaces it once.",
     [RG, WF, WT, MW], [("registries", RG + ": AbstractRegistry.register, create_class, create_instance"), ("use of the names", MW + ": Masw.run; " + WF + ": run")],
     "property-based testing: model-based (dictionary per registry) histories + differential runs", "Built-in entries are looked at but never replaced.")


def main():
    built = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(ROOT, "pbt/props/c[0-9][0-9]_*.py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "hook_needed": None}
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["pid"]
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy' && test -x ./check.sh",
           "checks": [{"property": p["pid"], "quick_cmd": f"./check.sh {p['pid']}", "thorough_cmd": f"./check.sh {p['pid']} --tier thorough",
                       "evidence_file": f"evidence/{p['pid']}.json", "technique": p["technique"], "level": "exploration",
                       "level_note": "Generated-input search (Hypothesis, seeded): evidence of absence only over the cases counted. " + p["note"]} for p in PROPS if p["pid"] in built],
           "not_applicable": [{"property": p["pid"], "reason": "The check is not built yet; nothing is claimed."} for p in PROPS if p["pid"] not in built],
           "notes": "No hooks: every property is observed through the public interface. Generated by tools/catalog.py."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(PROPS), "properties,", len(man["checks"]), "claimed")


main()
