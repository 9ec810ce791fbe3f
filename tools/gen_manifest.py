#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list of properties."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=list(state), observe=list(observe)))


HARNESS_NOTE = ("Bounded: every behaviour explored is finite (sizes in DESIGN.md); the real code is built from "
                "/repo's working tree with address and undefined-behaviour sanitizers and each of its answers is judged by TLC against the TLA+ specification.")

prop("P01", "Text converts to exactly the number or boolean it denotes, or is rejected",
     "Converting text to an integer of any supported width gives exactly the integer the text denotes (optional sign and decimal digits, or 0x and hex digits, blanks around it allowed) when that integer is a value of the type, and an error for every other text: never a wrapped, truncated or partially read value. "
     "Decimal floating-point text gives its value (nearest representable), text with other content and values beyond the type's range give an error. "
     "Boolean text is true or false by its first letter (t, T, 1, y, Y / f, F, 0, n, N) and anything else is an error.",
     ["inputs"], "For every text and every supported numeric type.",
     "The texts are unbounded; tests sample a few good and bad ones, not the limits of every type, the interplay of sign, base, blanks and trailing characters.",
     ["common/StringTools.cc", "common/StringTools.h"],
     [("StringToNumber family", "common/StringTools.cc: strToBool, strToInt*, strToUint*, strToFloat, strToDouble")],
     "TLA+ specification of the number grammar (NumberText.tla); recorded conversions of the real code judged by TLC",
     "Texts from a grammar plus mutations, at and around every type limit.")
prop("P02", "Compact list notation expands to exactly the list it denotes",
     "Expanding the compact notation for lists of values (multiplication n*value, ranges a..b with zero padding, prefix, suffix, braces and chaining, nested brackets and parenthesised groups, with blanks) gives exactly the denoted elements in order, descending ranges included, and expanding an expanded text changes nothing. "
     "Quoted text and text without notation is left as it is, and an unterminated quote or bracket inside a multiplied value is an error. "
     "A glob pattern with * and ? matches exactly the names the converted regular expression matches, and splitting a text on delimiters gives its maximal delimiter-free runs in order.",
     ["inputs"], "For every array text built from the notation, every pattern and every delimited text.",
     "The notation nests and combines without bound; tests hold a fixed list of examples.",
     ["common/StringTools.cc", "common/StringTools.h"],
     [("array expansion", "common/StringTools.cc: expandArrayString, expandRangeString, expandMultString"),
      ("tokenizing and lookups", "common/StringTools.cc: tokenize, lookup of quotes and brackets")],
     "TLA+ denotational specification of the notation (ArrayText.tla: Render/Denote); expansions of the real code judged by TLC",
     "Trees of the notation generated up to a depth and rendered by both generator and specification.")
prop("P03", "Structured parameter values split into exactly their parts or are rejected",
     "A parameter value between brackets splits at its top-level commas into exactly its elements, a value between braces into exactly its name:value fields, with nested brackets, parentheses and quoted parts kept whole; unbalanced brackets, unclosed quotes, fields without colon and duplicate field names are errors. "
     "Reading a value as string removes the quotes of its quoted parts and nothing else; typed vectors convert element by element, all or nothing. "
     "A record that is printed and read back is the same record, and a duration with unit s, m or h gives its number of seconds.",
     ["inputs"], "For every value text.",
     "Nesting, quoting and blanks combine without bound; a test fixes a few combinations.",
     ["common/ParameterValue.cc", "common/ParameterValue.h", "common/ParameterRecord.cc", "common/StringTools.cc"],
     [("value splitting", "common/ParameterValue.cc: ParameterValue::splitValue, getVector, getRecord, getString, getTime"),
      ("record printing", "common/ParameterRecord.cc")],
     "TLA+ scanner specification (ValueText.tla); parses by the real code judged by TLC",
     "Values from a grammar with mutations.")
prop("P04", "Reading a parset text gives its keys and values; writing it is lossless",
     "Reading a parameter text gives for each key the value written after its first unquoted equals sign, with comments (unquoted #) and blank lines ignored, lines without equals sign appended to the current value, a trailing backslash removed, keys unquoted and later occurrences of a key overriding earlier ones. "
     "A line with an unclosed quote or with an equals sign but no key is an error; text before the first key belongs to no value. "
     "Writing a set and reading it back, through text or through a file, gives the same keys and values for every set whose keys need no quoting.",
     ["inputs", "histories"], "For every parameter text, prefix and key case mode.",
     "Line structure, quoting, comments and continuation interact; tests hold a few files.",
     ["common/ParameterSetImpl.cc", "common/ParameterSetImpl.h", "common/ParameterSet.cc"],
     [("text reader", "common/ParameterSetImpl.cc: readStream, addMergeLine"), ("writer", "common/ParameterSetImpl.cc: writeFile, writeBuffer, writeStream")],
     "TLA+ specification of the text form (ParSet.tla: ReadText/WriteText/RoundTrips); real reads and writes judged by TLC",
     "Texts from a line grammar with mutations.")
prop("P05", "A parset answers every sequence of operations like one keyed store",
     "After any sequence of add, replace, remove, adopt text, file or collection, subset, subtract and command-line overrides on shared or copied parameter sets, every lookup gives the value most recently stored for that key (or the default, or an error when there is neither). "
     "Adding an existing key is an error that changes nothing, an overridden key keeps its spelling, handles that share a set see each other's changes and subsets are independent copies. "
     "Lookups of every type agree on the stored text, and the position of a module in the key names is found. In a case-insensitive set spelling differences in case do not matter.",
     ["histories", "inputs"], "For every sequence of operations on any number of sets and handles.",
     "Behaviour depends on the history of operations and on aliasing; tests exercise short fixed sequences.",
     ["common/ParameterSet.cc", "common/ParameterSet.h", "common/ParameterSetImpl.cc", "common/ParameterSetImpl.h"],
     [("keyed store", "common/ParameterSetImpl.cc: add, replace, remove, adoptCollection, adoptArgv, makeSubset, subtractSubset, getParam"),
      ("shared handles", "common/ParameterSet.h")],
     "TLA+ state machine of parameter sets (ParSet.tla); random operation histories on the real code checked step by step by TLC",
     "Histories of operations over a small key alphabet with case variants and common prefixes.")
prop("P06", "The reported unused parset keys are exactly those never asked for",
     "At any moment the keys reported as unused are exactly the keys present in the set that no lookup (with or without default, typed, vector, record or subset extraction) has asked for, listed in key order. "
     "Asking under a different case in a case-insensitive set counts, asking for an absent key does not, and reporting does not change the answer.",
     ["histories"], "For every sequence of operations and lookups.",
     "The guarantee spans the history of all lookups; a test asks a handful of keys once.",
     ["common/ParameterSetImpl.cc", "common/ParameterSet.cc", "common/ParameterSet.h"],
     [("asked-key accounting", "common/ParameterSetImpl.cc: unusedKeys, findKV, getParam, makeSubset")],
     "TLA+ state machine with the set of asked keys (ParSet.tla); real histories checked by TLC",
     "All typed getters are exercised in the histories.", state=[{"name": "asked keys", "meaning": "keys some lookup asked for", "where": "common/ParameterSetImpl.h"}])
prop("P07", "Concurrent use of one parset is atomic and free of data races",
     "When several threads look up, test for, add, replace, remove, adopt, extract subsets of, write and list the unused keys of one shared parameter set, every operation takes effect at a single instant: the answers and the final contents and unused keys are those of some sequential order that keeps each thread's own order. "
     "No execution has a data race or crashes.",
     ["schedules", "histories"], "For every interleaving of the threads' operations.",
     "Schedules are not controlled by tests, and the tests use a single thread.",
     ["common/ParameterSetImpl.cc", "common/ParameterSetImpl.h"],
     [("locking", "common/ParameterSetImpl.cc: mutex use in every accessor")],
     "TLA+ linearizability specification (ParSetConc.tla) judging real multithreaded runs, under ThreadSanitizer",
     "Random interleavings provoked by the scheduler; data races found by ThreadSanitizer independent of timing.")
prop("P08", "Data needed before a chain of steps is what it reads before it is created",
     "The fields (data, flags, weights, uvw) needed ahead of a step, given those needed after it, are those it or its successors require, minus those it provides without requiring them; composed over a chain, a field is needed exactly when some step reads it before any earlier step has created it. "
     "Combining, comparing and printing sets of fields agree with set union, equality and listing.",
     ["inputs", "histories"], "For every chain of steps with every combination of required and provided fields.",
     "There are 4096 combinations per step and unboundedly many chains; tests check a few.",
     ["common/Fields.h", "common/Fields.cc"],
     [("field set algebra", "common/Fields.h: UpdateRequirements, operator|, operator|=, operator==")],
     "TLA+ model of step chains (Fields.tla) model checked (backward rule = operational meaning), and all 16^3 real transitions judged by TLC",
     "Exhaustive for one step; chains random.")
prop("P09", "Baseline numbering is a bijection that inverts exactly",
     "For every number of antennas and both orderings, numbering the antenna pairs is a bijection onto 0..n(n+1)/2-1 in the documented order, independent of the order in which the two antennas are given, and converting a number back gives the pair. "
     "The list of baselines of an antenna is exactly the numbers of the pairs that contain it, ordered by the other antenna, and the number of baselines is the number of pairs.",
     ["inputs"], "For every number of antennas and every pair.",
     "Tests check three antennas; rounding in the square-root inverse only goes wrong for particular larger values.",
     ["common/baseline_indices.h"],
     [("index arithmetic", "common/baseline_indices.h: ComputeNBaselines, ComputeBaselineIndex, ComputeBaseline, ComputeBaselineList")],
     "TLA+ enumeration of pairs model checked against the closed form (BaselinesMC.tla); real conversions judged by TLC",
     "Exhaustive up to a number of antennas, sampled beyond.")
prop("P10", "Resampled solutions carry, per sub step, the solution that covers it",
     "When directions have different numbers of solutions per solution interval, upsampling gives every direction one solution per common sub step, and the value of every sub step, antenna, direction and polarization is exactly the original solution whose time span contains that sub step. "
     "The common number of sub steps is the largest number of solutions when all others divide it and the solution interval otherwise. "
     "Upsampled constraint results have the right shape, axes and values likewise.",
     ["inputs"], "For every number of solutions per direction, solution interval, antenna count and polarization count.",
     "Index arithmetic over five dimensions; tests use one or two shapes.",
     ["ddecal/SolutionResampler.cc", "ddecal/SolutionResampler.h"],
     [("resampler", "ddecal/SolutionResampler.cc: Upsample, MapToOriginalSolution")],
     "TLA+ specification by time-span coverage (Resample.tla) model checked; real resampler output judged by TLC",
     "Every value tagged with its origin so a wrong source is visible.")
prop("P11", "Linear solvers return the least-squares solution or report failure",
     "Each linear solver (QR, SVD, normal equations) returns, for a full-rank system of any shape it accepts and any number of right-hand sides, the x that minimises |b - A x|, and repeated solves with the same solver object are independent of each other. "
     "A system with a zero column is reported as unsolvable by the solvers that need full rank.",
     ["inputs", "histories"], "For every full-rank complex matrix, right-hand side and sequence of solves.",
     "Tests solve a single system; layout and workspace errors show only for other shapes or on reuse.",
     ["ddecal/linear_solvers/LLSSolver.cc", "ddecal/linear_solvers/LLSSolver.h", "ddecal/linear_solvers/QRSolver.h", "ddecal/linear_solvers/SVDSolver.h", "ddecal/linear_solvers/NormalEquationsSolver.h"],
     [("LAPACK drivers", "ddecal/linear_solvers/*.h: Solve")],
     "TLA+ orthogonality specification over Gaussian integers (LinSolve.tla) judging the solutions of the real solvers",
     "Small-integer systems so that the exact normal equations are decidable in TLC.")
prop("P12", "The median is the mean of the two middle values and loses no data",
     "The median of a list is its middle value, or the mean of its two middle values when the number of values is even, and 0 for an empty list, whatever the order and multiplicity of the values. "
     "Taking it only reorders the values: none is lost or changed.",
     ["inputs"], "For every list of values.",
     "Tests use a few short lists; selection bugs depend on the arrangement of the values.",
     ["common/Median.h"], [("median", "common/Median.h: Median")],
     "TLA+ counting definition of the median (Stats.tla); real results for all short lists judged by TLC",
     "Exhaustive over short lists with few distinct values, random beyond.")
prop("P13", "Timers accumulate exactly the running time; quantities print with right scale",
     "After any sequence of start, stop, reset, copying and summing, a timer reports exactly the total of its completed start/stop intervals, their number and their mean, and scope-based timing adds exactly the lifetime of the scope, exceptions included. "
     "A quantity from yocto to yotta of either sign prints as its three significant digits between 1 and 999 with the SI prefix of its power of a thousand and its unit.",
     ["histories", "inputs"], "For every history of timer operations and every quantity.",
     "Tests cannot control the clock or enumerate histories and magnitudes.",
     ["common/Timer.h", "common/PrettyUnits.cc", "common/PrettyUnits.h"],
     [("timers", "common/Timer.h: BaseTimer, NSTimer, ScopedMicroSecondAccumulator"), ("units", "common/PrettyUnits.cc")],
     "TLA+ stopwatch state machine (Stopwatch.tla), model checked; TLC-generated behaviours replayed on the real timers with a controlled clock",
     "The clock is the environment of the model and is substituted in the harness.")
prop("P14", "Mode and type names map one to one and carry the right metadata",
     "Every calibration mode has a printed name that selects it again, every documented alias selects its mode, every other name (different case or surrounding blanks included) is an error, and each mode has the documented number of polarizations per solution. "
     "Every receiver unit mode has its documented antenna type, description, centre frequency, frequency offset and subband width, numbers outside the modes are errors, and every stored numeric type has a name of its own.",
     ["inputs"], "For every mode, alias and type.",
     "The tables are only sampled by tests; an inconsistency shows for single entries.",
     ["base/CalType.cc", "base/CalType.h", "base/RcuMode.h", "common/TypeNames.cc", "common/TypeNames.h"],
     [("calibration modes", "base/CalType.cc: StringToCalType, ToString, GetNPolarizations"), ("receiver modes", "base/RcuMode.h"), ("type names", "common/TypeNames.cc")],
     "TLA+ tables with unambiguity conditions (Names.tla); every real entry judged by TLC",
     "Exhaustive over modes and aliases.")
prop("P15", "Byte-order conversion and bit packing are exact and invertible",
     "Converting the byte order of any number of values of any supported width reverses exactly the bytes of each value, touches no byte outside the buffer, gives the same result in place and copied, and is undone by a second conversion. "
     "Packing booleans into bits from any start bit and unpacking them gives the same booleans, least significant bit first, and leaves the bits before the start bit alone.",
     ["inputs"], "For every width, count, content and start bit.",
     "Tests convert single values; remainders, start bits and lengths combine.",
     ["common/DataConvert.cc", "common/DataConvert.h", "common/DataFormat.h"],
     [("byte swapping", "common/DataConvert.h: byteSwap*, common/DataConvert.cc: dataConvert*"), ("bit packing", "common/DataConvert.cc: boolToBit, bitToBool")],
     "TLA+ byte-level specification (Bytes.tla) judging the buffers of the real code, guard bytes included",
     "All small counts and start bits.")
prop("P16", "Station Jones matrices apply to exactly the right visibilities",
     "Applying station gains turns the visibility V of stations p and q into Jp V Jq^H for every baseline between different stations, channel and correlation, whatever the memory strides of the buffers, and leaves auto-correlations and every other element of the buffer alone. "
     "Subtracting a mixed source likewise gives V - w M element by element for cross-correlations only, and a strided cursor visits exactly the elements its strides name.",
     ["inputs"], "For every layout, baseline set, gain and visibility.",
     "Stride, conjugation and index errors cancel for the symmetric data of tests.",
     ["base/Apply.cc", "base/Apply.h", "base/SubtractMixed.cc", "base/SubtractMixed.h", "base/Cursor.h"],
     [("gain application", "base/Apply.cc: apply"), ("subtraction", "base/SubtractMixed.cc: subtract"), ("cursor", "base/Cursor.h")],
     "TLA+ exact Gaussian-integer specification (Jones.tla) judging the buffers written by the real code",
     "Integer-valued complex data, so equality is exact.")

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"].strip(),
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": dict(files=p["files"], mechanism=[{"name": a, "where": b} for a, b in p["mech"]],
                            **({"state": p["state"]} if p["state"] else {}),
                            **({"observe_at": p["observe"]} if p["observe"] else {}),
                            hook_needed=None)}) + "\n")

man = {"version": 1, "setup_cmd": "./setup.sh",
       "checks": [{"property": p["id"], "quick_cmd": "./check " + p["id"],
                   "thorough_cmd": "./check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "model_checking",
                   "level_note": p["note"] + " " + HARNESS_NOTE} for p in P if p["id"] not in [n["property"] for n in NOT_APPLICABLE]],
       "not_applicable": NOT_APPLICABLE,
       "notes": "TLA+ checked with TLC. No hooks in /repo are needed. Known findings and repairs: known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
