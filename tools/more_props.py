prop("P17", "Sky components show their flux at any frequency; patches their mean direction",
     "A sky component reports exactly what was set on it, its flux at a frequency follows its spectral terms (logarithmic or ordinary polynomial in frequency over reference frequency) with Q and U rotated and scaled by its rotation measure when it has one, and unaffected parameters keep their values. "
     "Extracting a component gives its own values only, padded with zero spectral terms and with an error for more than three, whatever was extracted before. "
     "A patch holds its components in order and points in the direction of the mean of their unit vectors, across the poles and the right ascension wrap.",
     ["inputs", "histories"], "For every component, frequency, order of settings and collection of components.",
     "No existing test that builds here covers components; extraction depends on the component inspected before.",
     ["base/PointSource.cc", "base/PointSource.h", "base/GaussianSource.cc", "base/GaussianSource.h", "base/ComponentInfo.cc", "base/ComponentInfo.h", "sky_model/Patch.cc", "sky_model/Patch.h"],
     [("spectra", "base/PointSource.cc: stokes"), ("extraction", "base/ComponentInfo.cc"), ("patch direction", "sky_model/Patch.cc: ComputeDirection")],
     "TLA+ specification with integer spectra and a sine table (Sky.tla); histories on the real components judged by TLC",
     "Angles are multiples of 5 degrees, spectra integers, so that the specification is exact.")

SHIM = "The step code runs against stand-ins for casacore, xtensor, aocommon and schaapcommon (not installed here); integer-valued data, so that results are exact."

prop("P18", "Averaging reduces the data without changing what was observed",
     "For every channel and time averaging factor, the averager emits per output cell the weighted mean of the unflagged input samples with the sum of their weights, and flags the cell exactly when fewer samples than the required number (or percentage) were unflagged, in which case it holds the plain mean of all samples. "
     "Times are the centres of the averaged intervals, exposures add up, UVWs are averaged, and a last incomplete interval is still emitted when the input ends. The output description (channels, widths, times, interval, averaging factors) matches the data emitted. "
     "Factors given as a resolution with a unit choose the nearest multiple; a channel count that is not a multiple of the factor is refused. Averaging twice equals averaging once by the product.",
     ["inputs", "histories", "configurations"], "For every data set, flag and weight pattern, averaging factor and number of time slots, including those that do not fill the last interval.",
     "The step tests need casacore and do not build here, and compare with one synthetic pattern; flags, weights and lengths interact.",
     ["steps/Averager.cc", "steps/Averager.h", "base/DPInfo.cc", "base/DPInfo.h", "base/DPBuffer.cc", "base/DPBuffer.h", "base/FlagCounter.cc"],
     [("averaging", "steps/Averager.cc: average"), ("time slots", "steps/Averager.cc: process, finish"), ("description", "base/DPInfo.cc: update")],
     "TLA+ specification of averaging as a state machine over time slots (Averager.tla); histories on the real step judged by TLC", SHIM)

prop("P19", "Baseline-dependent averaging and expanding conserve the data",
     "The BDA averager averages each baseline by its own factors, at most the configured interval and no fewer than the configured channels, longer baselines never more than shorter ones; each output row is the weighted mean of the unflagged input samples it covers, weights add up, a fully flagged row holds the plain mean and stays flagged, and every input interval is covered exactly once up to the end of the data. "
     "Rows appear in time order, requests for smaller buffers only split the rows over buffers. "
     "The expander gives back one regular buffer per input time slot in which every baseline and channel holds the value of the row covering it, with its weight divided over the slots and channels it covers. Averaging what was expanded gives the same rows again.",
     ["inputs", "histories", "configurations"], "For every set of baselines, thresholds, flag and weight pattern, buffer size and number of time slots.",
     "The tests need casacore and do not build here; baselines fill at different moments, so results depend on the whole history.",
     ["steps/BDAAverager.cc", "steps/BDAAverager.h", "steps/BdaExpander.cc", "steps/BdaExpander.h", "base/BdaBuffer.cc", "base/BdaBuffer.h", "base/DPInfo.cc"],
     [("factors", "steps/BDAAverager.cc: updateInfo"), ("rows", "steps/BDAAverager.cc: AddBaseline"), ("expansion", "steps/BdaExpander.cc: process")],
     "TLA+ specification of per-baseline averaging and expansion (Bda.tla); histories on the real steps judged by TLC", SHIM)

prop("P20", "Buffers are values: copies and moves never share, lose or mix data",
     "A visibility buffer holds named data sets, flags, weights and UVWs; changing a copy never changes the original, adding, removing, moving or taking a named data set affects just that set, a missing field stays missing, and copying a selection of fields copies just these. "
     "A buffer of baseline-dependent rows accepts a row only when it fits, gives every row its own part of each field in the order of adding, keeps rows, times and offsets consistent whichever fields it has, and reports the remaining capacity right.",
     ["inputs", "histories"], "For every sequence of operations on any number of buffers.",
     "The tests need casacore and do not build here; sharing shows only after a particular sequence of copies, moves and changes.",
     ["base/DPBuffer.cc", "base/DPBuffer.h", "base/BdaBuffer.cc", "base/BdaBuffer.h"],
     [("regular buffer", "base/DPBuffer.cc"), ("BDA buffer", "base/BdaBuffer.cc")],
     "TLA+ specification of a store of buffers as values (Buffers.tla); histories on the real classes judged by TLC", SHIM)

prop("P21", "The description of a data set stays consistent while steps change it",
     "Whatever sequence of setting channels, selecting channels or baselines, averaging, setting or removing antennas: the number of channels, the channel lists, the total bandwidth (the sum of the effective bandwidths of the present channels), the number of times, the interval and the start and end, the averaging factors and the antennas used agree with each other. "
     "Removing unused antennas renumbers the baselines and keeps every baseline's stations. Baseline lengths and autocorrelation indices are those of the present antennas and baselines. Regularity of channels is judged within the documented tolerances. "
     "An invalid request (lists of different lengths, unequal bandwidth per baseline, a range beyond the channels, a factor that does not divide the channels, times out of order) is refused and changes nothing. A copy is independent.",
     ["inputs", "histories"], "For every sequence of changes to the description.",
     "The tests need casacore and do not build here; cached values go stale only when asked for before a change.",
     ["base/DPInfo.cc", "base/DPInfo.h"],
     [("channels", "base/DPInfo.cc: setChannels, SelectChannels"), ("averaging", "base/DPInfo.cc: update"), ("antennas", "base/DPInfo.cc: setAntennas, RemoveUnusedAntennas")],
     "TLA+ specification of the description and its transitions (DataInfo.tla); histories on the real class judged by TLC", SHIM)

prop("P22", "Solution constraints impose exactly what they promise and touch nothing else",
     "After a constraint is applied, the solutions satisfy it and are the projection it documents of the solutions before: smoothing gives each channel the weighted kernel mean over the configured bandwidth (scaled with frequency, antenna, direction and reference distance), ignoring flagged and unweighted channels and other antennas; antennas of one set get the mean of the set's valid solutions; sub-solutions of an antenna interval get their mean; amplitudes keep their modulus only; leakage keeps only the off-diagonal form; rotation and rotation-plus-diagonal give the best rotation and diagonal terms in the configured mode, referred to the reference antenna. "
     "Diverged or invalid solutions are flagged with weight -1 or stay invalid, each in its own antenna, direction and channel. Reported values, weights, axes and sizes are those of the solutions. Directions with several sub-solutions never mix.",
     ["inputs", "histories", "configurations"], "For every number of antennas, directions, sub-solutions, channels and polarizations, every pattern of invalid solutions and weights, every sequence of applications.",
     "The constraint tests need xtensor and do not build here, and sample one layout with one direction; the index arithmetic only matters when antennas, directions, sub-solutions and channels all differ.",
     ["ddecal/constraints/Constraint.cc", "ddecal/constraints/SmoothnessConstraint.cc", "ddecal/constraints/KernelSmoother.h", "ddecal/constraints/AntennaConstraint.h", "ddecal/constraints/AntennaIntervalConstraint.cc", "ddecal/constraints/AmplitudeOnlyConstraint.h", "ddecal/constraints/PolarizationLeakageConstraint.cc", "ddecal/constraints/RotationConstraint.cc", "ddecal/constraints/RotationAndDiagonalConstraint.cc"],
     [("smoothing", "ddecal/constraints/KernelSmoother.h"), ("antenna sets and intervals", "ddecal/constraints/AntennaConstraint.h"), ("rotations", "ddecal/constraints/RotationAndDiagonalConstraint.cc: Apply")],
     "TLA+ specification of the constraints with integer solutions and a sine table (Constraints.tla); histories on the real constraints judged by TLC", SHIM + " Kernel values are compared in fixed point; the truncation window is only required to contain half the bandwidth.")

prop("P23", "Phase model fits recover noise-free phases, whatever wraps or is flagged",
     "Fitting a TEC (1/frequency), with or without an offset or a delay, to phases that follow such a model up to whole turns gives that model back, within the searched range, whatever the phases or contents of channels without weight and whatever was fitted before; the phases handed back are those of the reported parameters, and the reported cost is the weighted mean wrapped distance. "
     "As constraint, every antenna and (sub-)solution is fitted by itself with its own weights after reference to the first antenna with enough valid channels; results carry the summed weights and the right names and sizes; the approximating stage fits weighted lines piece by piece and ends when the iterations, the accuracy or the final iteration say so. "
     "Piecewise and sliding line fits return a line that was put in and are always finite; the weighted median splits the weight.",
     ["inputs", "histories", "configurations"], "For every model in range, set of frequencies, weights and invalid channels, number of antennas and directions, and order of fits with one fitter.",
     "The fit tests that exist do not build here; they fit one or two models and never refit with leftover state, flagged channels or several directions.",
     ["base/PhaseFitter.cc", "base/PhaseFitter.h", "ddecal/constraints/PieceWisePhaseFitter.h", "ddecal/constraints/TecConstraint.cc", "ddecal/constraints/TecConstraint.h", "ddecal/constraints/TecOffsetDelayConstraint.cc", "ddecal/constraints/TecOffsetDelayFitting.cc", "ddecal/constraints/Constraint.cc"],
     [("TEC fits", "base/PhaseFitter.cc: FitTEC1ModelParameters, FitTEC2ModelParameters"), ("delay fits", "ddecal/constraints/TecOffsetDelayFitting.cc: TecOffsetDelayGridSearch"), ("piecewise fits", "ddecal/constraints/PieceWisePhaseFitter.h: fitSlope")],
     "TLA+ specification of phase models modulo turns in tenths of a degree (PhaseFit.tla); histories on the real fitters and constraints judged by TLC", SHIM + " Recovery is required for at least 8 weighted channels over 50 MHz (6 for delays, regular channels; an octave without offset, see known findings).")

prop("P24", "Parameter domains are divided, found, cut, joined and mapped by exact cells",
     "An axis holds the cells it was made of, given as start and width, start and end, or centre and width, with gaps where there are gaps, and calls itself regular exactly when its cells are equally wide and adjoin. Looking up a value gives the cell that holds it, on an edge the one asked for, or the next higher cell, whatever search hint is given. A subset holds exactly the cells that overlap the range, compressing joins consecutive cells, combining two axes gives all cells of both in order (a hole between them becomes a cell), tells where each axis is, and refuses cells that disagree. "
     "A mapping gives every cell its destination cell, the position in it and the borders, whether cached or not. Boxes intersect, contain, join and order as rectangles. A grid made of axes, boxes or grids, sorted or not, has their cells, and numbers, locates, enumerates, cuts and exports them consistently.",
     ["inputs", "histories"], "For every axis, box, grid, value, range and order of operations, with rounding in the coordinates.",
     "No test of the grids builds here; edges, gaps and unequal numbers of cells per axis are what single examples miss.",
     ["parmdb/Axis.cc", "parmdb/Axis.h", "parmdb/Box.cc", "parmdb/Box.h", "parmdb/Grid.cc", "parmdb/Grid.h", "parmdb/AxisMapping.cc", "parmdb/AxisMapping.h"],
     [("axes", "parmdb/Axis.cc: find, subset, combine, compress"), ("boxes", "parmdb/Box.cc"), ("grids", "parmdb/Grid.cc: setup, toDomains"), ("mappings", "parmdb/AxisMapping.cc")],
     "TLA+ specification of axes as sequences of cells (Grids.tla); histories on the real classes judged by TLC", "casacore's near() and the logger are stand-ins; coordinates are integers times a scale.")

prop("P25", "Sky model text is read as its format says, and patches follow their sources",
     "A sky model text is read by its format: named in a format line, in a comment, given separately, or the default. Every field takes its value, its default or its fixed value, whatever the separator, order, case, blanks, quotes and brackets; positions are the same whether given whole or in parts, with their sign; missing values get their documented defaults, and texts that are no numbers, unknown types, positions out of range, rotation measures without what they need and sources in patches not yet defined are refused. "
     "A patch has the summed flux and the mean direction of its sources. Patches are found by shell pattern; patch lists hold exactly the chosen patches with all their sources once each, in order; what cannot be predicted is refused; clustering groups sources within the limit and gives each cluster its mean direction. What is written is read back the same.",
     ["inputs", "histories"], "For every text, format and order of reading, choosing, clustering and writing.",
     "The sky model tests do not build here, read one fixed file, and never vary the format.",
     ["sky_model/ReadSkyModel.cc", "sky_model/SkyModel.cc", "sky_model/SkyModelFunctions.cc", "sky_model/SkyModelSelection.cc", "sky_model/Source.cc", "sky_model/SourceInfo.cc", "sky_model/PatchInfo.cc", "sky_model/PatchInfo.h", "sky_model/Patch.cc", "common/ProximityClustering.cc"],
     [("format", "sky_model/ReadSkyModel.cc: getFormat, ReadFormat"), ("lines", "sky_model/ReadSkyModel.cc: process"), ("choice", "sky_model/SkyModelFunctions.cc: MakePatchList"), ("clusters", "sky_model/SkyModelFunctions.cc: clusterProximateSources")],
     "TLA+ specification of the format, the lines and the patches (SkyFile.tla); generated texts read by the real code and judged by TLC", SHIM + " Shapelet files, duplicate patch definitions and quoted positions are not judged.")

prop("P26", "Flagging steps flag exactly the selected visibilities and report exact counts",
     "The preflagger selects a visibility exactly if it meets every given criterion: antenna pairs by name, pattern, number, group or correlation type, baseline length, uv distance, azimuth and elevation, absolute, relative, daily and sidereal times (also past midnight) and time slots, channels by number, expression of nchan and frequency ranges, amplitude, phase, real and imaginary part per correlation, and a logical expression of nested selections with the documented precedence; a set without criteria selects nothing. Set, clear and their complements change exactly those flags, and clearing keeps invalid data flagged. "
     "The uvw flagger flags exactly the channels whose u, v, w or uv length lies in one of the ranges, in metres or wavelengths of that channel, optionally towards another phase centre, for regular and baseline-dependent averaged data. Everything else passes unchanged. Unknown and inconsistent settings are refused. "
     "Reported and saved percentages per baseline, station, channel and correlation, totals and warnings are those of the flags that were newly set, or present for the counter.",
     ["inputs", "histories", "configurations"], "For every combination of criteria, every stream of time slots and every pattern of flags, data and shapes.",
     "The tests of these steps need casacore and do not build here; they try some criteria one by one, where errors need combinations, borders or empty selections.",
     ["steps/PreFlagger.cc", "steps/PreFlagger.h", "steps/UVWFlagger.cc", "steps/UVWFlagger.h", "steps/Counter.cc", "base/FlagCounter.cc", "base/FlagCounter.h", "base/BaselineSelection.cc", "base/UVWCalculator.cc"],
     [("selection", "steps/PreFlagger.cc: PSet"), ("uvw ranges", "steps/UVWFlagger.cc: doTestUVWs"), ("baselines", "base/BaselineSelection.cc: apply"), ("reports", "base/FlagCounter.cc")],
     "TLA+ specification of selections, flags and counts (Flagging.tla), expression reading model checked (FlaggingMC); histories on the real steps judged by TLC", SHIM + " Sidereal time, horizon coordinates and frames are simple stand-ins, so conversions themselves are not judged.")

prop("P27", "Calibration gets every usable cross-baseline sample once, weighted, in its place",
     "The data given to a gain solver hold, per channel block, every sample of every cross baseline exactly once with its antennas, never an autocorrelation: channels are divided over the blocks and times over the solutions of each direction in equal parts. Data and models are multiplied by the square root of the weight (by the weight in linear mode); a sample with a flagged or non-finite correlation, in the data or any model, is zero in data and models. The original data stay as they were, and the original models are kept or given up as asked. Solution weights and visibility counts are those of that data. "
     "Baseline-dependent rows are collected per solution interval by their centre: an interval is complete when every baseline has begun a later one, rows that go back are refused, buffers come back whole, once, in order, as soon as no row in them is needed, and applying solutions changes exactly the kept models of the current interval.",
     ["inputs", "histories"], "For every layout of antennas, blocks, directions, solutions per direction, flags, weights and arrival order of rows.",
     "The solver tests need libraries that are not here, use one regular layout, and never mix directions with different intervals, odd block sizes and bad samples.",
     ["ddecal/gain_solvers/SolverTools.cc", "ddecal/gain_solvers/SolveData.cc", "ddecal/gain_solvers/SolveData.h", "ddecal/gain_solvers/BdaSolverBuffer.cc", "ddecal/gain_solvers/BdaSolverBuffer.h"],
     [("weighting", "ddecal/gain_solvers/SolverTools.cc: AssignAndWeight"), ("assignment", "ddecal/gain_solvers/SolveData.cc: SolveData::SolveData"), ("intervals", "ddecal/gain_solvers/BdaSolverBuffer.cc")],
     "TLA+ specification of weighting, assignment and collection (Gains.tla; arrival orders model checked in GainsMC); histories on the real classes judged by TLC", SHIM + " xsimd is a scalar stand-in.")

prop("P28", "Gain solvers find the gains that explain the data, stopping as they are told",
     "For data that gains (scalar, diagonal or full Jones, one or more directions, solutions per part of the interval, per channel block) explain exactly, the solver returns gains that reproduce the data; for any data a converged solution is a point where no gain can be changed to leave less. An antenna gets a solution exactly if it has usable data, and antennas, blocks, directions and solutions do not influence each other's place. Phase-only solutions have amplitude one. "
     "Each step goes the given fraction of the way from the previous solution, along the circle for phases. Non-finite start values are replaced, per polarization, by the mean amplitude of the finite ones, else by the identity. Constraints are prepared once and then applied in every iteration with the right number, and their effect is in the result. Iterations stay between the minimum and the maximum, and the count reported tells whether the solver converged with constraints satisfied. A combination of solvers stays within the total. What was solved before, and the number of threads, does not matter. Unsupported combinations are refused.",
     ["inputs", "histories", "configurations"], "For every solver, layout of data, flags, noise, start value, step size, limits and constraint.",
     "The solver tests do not build here; they use one data set per solver, mostly with identical channel blocks, a regular layout and no bad samples.",
     ["ddecal/gain_solvers/SolverBase.cc", "ddecal/gain_solvers/SolverBase.h", "ddecal/gain_solvers/ScalarSolver.cc", "ddecal/gain_solvers/DiagonalSolver.cc", "ddecal/gain_solvers/FullJonesSolver.cc", "ddecal/gain_solvers/IterativeScalarSolver.cc", "ddecal/gain_solvers/IterativeDiagonalSolver.cc", "ddecal/gain_solvers/IterativeFullJonesSolver.cc", "ddecal/gain_solvers/DiagonalLowRankSolver.cc", "ddecal/gain_solvers/HybridSolver.cc"],
     [("steps and start values", "ddecal/gain_solvers/SolverBase.cc: Step, MakeSolutionsFinite"), ("iterations", "ddecal/gain_solvers/SolverBase.h: ReachedStoppingCriterion"), ("solvers", "ddecal/gain_solvers/IterativeDiagonalSolver.cc: SolveDirection"), ("combination", "ddecal/gain_solvers/HybridSolver.cc: RunSolver")],
     "TLA+ specification of the residual, its derivative, start values, steps and iterations (Gains.tla); solves of the real solvers judged by TLC in fixed point", SHIM + " The low rank solver is judged on noise-free data only; LBFGS and GPU solvers cannot be built here.")

prop("P29", "Predicted visibilities are those of the sky model, and phase shifts are exact",
     "The visibility predicted for a baseline is the sum over the sources of the correlations of their Stokes flux at that frequency, with the phase of the path difference to the phase centre, lowered by the size of a Gaussian source along and across its position angle (measured on the sky at the source or at the phase centre, as asked), and, when asked, by the averaging over the width of the channel and over the time the earth turns; it is added to what was there, and autocorrelations are left alone. "
     "Station coordinates found from baselines explain every baseline, start at zero for the first station of every connected group, and come from the longest baselines when positions are known. "
     "Moving the phase centre, in steps or at once, turns the coordinates of every baseline into those of the last centre and makes a source there flat in phase; without a centre given, it moves back to the original one, and the stated phase centre follows.",
     ["inputs", "histories", "configurations"], "For every set of stations, baselines in any order or direction, sources, frequencies, widths and centres.",
     "The tests of prediction do not build here; they use sources near the phase centre, one kind of smearing at a time, and a tolerance.",
     ["base/Simulator.cc", "base/Simulator.h", "base/Simulate.cc", "base/PointSource.cc", "base/GaussianSource.cc", "base/Stokes.cc", "steps/PhaseShift.cc"],
     [("sources", "base/Simulator.cc: Simulator::visit"), ("station coordinates", "base/Simulate.cc: SetupUvwSplitting, SplitUvw"), ("phase shift", "steps/PhaseShift.cc: process")],
     "TLA+ specification in rational directions and turns (Predict.tla); predictions, splittings and shifts of the real code judged by TLC", SHIM + " Beams, shapelets and spectral indices other than a linear term are not judged; phases are exact fractions of a turn, amplitudes within about 0.1 percent.")

prop("P30", "Upsample, null Stokes, combine, scale, filter and interpolate do just that",
     "Taking out Stokes parameters leaves the others as they were; combining adds or subtracts a named column and drops it; scaling multiplies every baseline and channel with the root of the product of its stations' factors at that frequency, from the first matching pattern or the defaults, and of their nominal over actual number of elements when asked; all keep times, weights, flags and coordinates, also for baseline-dependent averaged rows. "
     "Filtering passes exactly the selected channels and baselines with their meta data, renumbers stations left when others are to be removed, and then removes and renumbers the rows of the tables that refer to stations. "
     "Interpolation replaces a flagged sample by the Gaussian-weighted mean of the unflagged samples in the window, around it in time and frequency, and unflags it; it flags and zeroes a sample when a value that is used is not finite or none is left. "
     "Upsampling divides every interval into equal parts, keeps one of two parts that coincide (not a flagged one), gives coordinates of the new times when asked, and a description of the output that fits. Unusable settings are refused.",
     ["inputs", "histories", "configurations"], "For every layout of stations, baselines, channels and correlations, flags, values, settings and gaps or overlaps between time slots.",
     "The tests of these steps do not build here; they use one layout and value pattern each, without overlapping slots, irregular selections, or averaged rows of different sizes.",
     ["steps/Upsample.cc", "steps/NullStokes.cc", "steps/Combine.cc", "steps/ScaleData.cc", "steps/Filter.cc", "steps/Interpolate.cc", "base/UVWCalculator.cc"],
     [("filter", "steps/Filter.cc: updateInfo, process, addToMS"), ("interpolation", "steps/Interpolate.cc: interpolateTimestep"), ("scaling", "steps/ScaleData.cc: process"), ("upsampling", "steps/Upsample.cc: process")],
     "TLA+ specification of each step's stream (Plain.tla), with fixed-point roots and kernels; histories on the real steps judged by TLC", SHIM + " Where more than two time slots cover a part, upsampling is not judged.")

prop("P31", "Superstations are the weighted sums of their stations on every baseline",
     "A superstation consists of the stations that its patterns leave, applied from left to right, excluding ones included; a name that exists or a station in two superstations is refused, an empty one left out. It lies at the mean position of its stations and covers them. Every station or other superstation outside it that has a baseline to one of its stations gets one to it, and only those, besides its autocorrelation when asked (from auto- or from cross-correlations). "
     "Existing baselines stay as they are. Each sample of a new baseline is the weighted sum or average of the unflagged samples of its stations' baselines, conjugated where the direction is opposite, with the sum of their weights; it is flagged, and made of all samples, when fewer than asked are unflagged. Coordinates are the average over the samples used or those of the new station at that time. The tables that describe stations, feeds, antenna fields and clocks get rows that fit, and keep the others.",
     ["inputs", "configurations"], "For every set of stations, patterns, baselines in either direction, flags, weights and settings.",
     "The tests of this step do not build here; they use all baselines in order, one set of names, and no superstations of different sizes with flags.",
     ["steps/StationAdder.cc", "steps/StationAdder.h", "base/UVWCalculator.cc"],
     [("members", "steps/StationAdder.cc: GetMatchingStations"), ("baselines", "steps/StationAdder.cc: updateInfo"), ("samples", "steps/StationAdder.cc: process"), ("tables", "steps/StationAdder.cc: addToMS, updateBeamInfo")],
     "TLA+ specification of members, baselines, samples and tables (Super.tla); histories on the real step judged by TLC", SHIM + " Frames and measures are simple stand-ins: the sky turns once a day about the pole.")

prop("P32", "Median flagging flags exactly the outliers of their own window",
     "A sample is flagged when, in one of the chosen correlations, its amplitude exceeds the median of its window by more than the threshold times 1.4826 times the median deviation from that median. The window spans the given number of times and channels around the sample (at least one, odd, mirrored at the edges), on the same baseline and correlation, and only samples not flagged before count. Windows and threshold may depend on the length of the baseline. A flag on one chosen correlation flags all; a sample flagged already stays so; baselines outside the length range are left alone. "
     "When asked, only autocorrelations are tested and their flags applied to the baselines of the station. Every time slot comes out once, in order, with unchanged data, however few there are. Unusable settings, or missing autocorrelations, are refused.",
     ["inputs", "histories", "configurations"], "For every window, threshold, choice of correlations, layout of baselines, amplitudes, flags and number of time slots.",
     "The tests of this step do not build here; they use one ramp of amplitudes with a regular pattern, without flags before, and few windows.",
     ["steps/MadFlagger.cc", "steps/MadFlagger.h"],
     [("windows", "steps/MadFlagger.cc: updateInfo, process, finish"), ("medians", "steps/MadFlagger.cc: flag, flagBaseline, computeFactors")],
     "TLA+ specification of windows, medians and what is flagged (Mad.tla), in whole amplitudes; histories on the real step judged by TLC", SHIM + " When fewer slots come than were announced and than the window has, only order, completeness and data are judged.")

prop("P33", "Antenna flagging flags the antennas and stations that stand out",
     "For each time slot, the standard deviation and the sum of squares over the channels, of the real and of the imaginary part, are added over the baselines of an antenna (leaving out what is not a number). Within a station, an antenna stands out when the logarithm of one plus its complex sum, in any correlation, in absolute value or angle, is more than the given number of standard deviations from the median of the station; outliers are replaced by the median and the search repeated up to the given number of times; values that are not finite always stand out. "
     "A station stands out when the median of its antennas' sums does so among stations in both XX and YY (or only XX). An antenna or station is flagged when it stands out in both statistics. Exactly the baselines of a flagged antenna are flagged fully; everything else is passed on as it was. Antennas of AARTFAAC-12 form stations of 48; otherwise each is a station. Baselines must be complete and in row or column order, otherwise the step refuses.",
     ["inputs", "configurations"], "For every number of stations and antennas, order of baselines, data with or without non-finite values, limits and numbers of iterations.",
     "The tests of this step do not build here; they use one random data set with huge outliers, for which almost any detection works.",
     ["steps/AntennaFlagger.cc", "antennaflagger/Flagger.cc", "antennaflagger/Flagger.h", "common/baseline_indices.h"],
     [("statistics", "antennaflagger/Flagger.cc: ComputeStatsStdDev, ComputeStatsSumSquare, GroupStats"), ("outliers", "antennaflagger/Flagger.cc: FindOutliers, ComputeAntennaFlags, ComputeStationFlags"), ("flags", "steps/AntennaFlagger.cc: process, updateInfo")],
     "TLA+ specification of statistics, logarithms, angles and repeated outlier search in fixed point (Antennas.tla); the real class and step judged by TLC", SHIM + " Verdicts within rounding of a limit are left open (about one in eight data sets); so are stations whose overall median is zero.")
