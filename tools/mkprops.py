"""Writes properties.jsonl (kept as a script because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": ["curvepy/" + f for f in files],
              "mechanism": [{"name": n, "where": "curvepy/" + w} for n, w in mech]}})

p("C01", "A point curve's value is the interpolation of the points it holds",
  "Inside the span of its points, a point curve's value at x is the y of the point at x, or otherwise the value its interpolation rule (linear, previous, next) gives for the two points next to x; outside of the span there is no value. This holds for any number and spacing of points, however they came to be there (construction, parsing, set, append, replace, reset), and the domain, the end values and the first and last points agree with it.",
  ["inputs", "histories"], "All point lists (empty, single, regular, irregular, with None values), interpolation rules, places asked, and histories which led to the points.",
  "The tests read a few fixed lists at a few fixed places; lookups depend on whether spacing is uniform, on bisection edges and on how the list came about.",
  ["points.py"], [("y, indexes_around, interpolation", "points.py:Points.y"), ("domain cache", "curve.py:Curve.domain")])
p("C02", "Point curve operations fail without effect or change exactly what they say",
  "Appending, replacing, resetting and setting points either raises and leaves the curve as it was with no update left announced, or leaves exactly the points the operation describes, strictly ascending (and equally spaced where that is required). A rejected change is never visible to observers.",
  ["histories", "inputs"], "All histories of valid and invalid operations on point curves, regular or irregular, empty or not, with and without observers which read the points while they change.",
  "Tests perform single operations on one list; failure atomicity needs bad operations at every position of a history.",
  ["points.py"], [("append_list, replace, reset, set", "points.py:Points"), ("_check_points, uniformity", "points.py:Points")])
p("C03", "Stepping visits every point in order and never gets stuck",
  "The next (previous) step of a curve of points from any place is the nearest following (preceding) point at least the requested minimum step away, and none when there is no such point; a curve given by a function steps by the minimum step, shortened only to end at a given limit, and ends with its domain; steps always go on strictly, never back. The neighbouring points and hops over several points agree with the steps. Steps of derived curves are those of the curves they derive from, translated to their own coordinates (an extension goes on by the step at the curve's end), and do not depend on how often or with what limit one asked before.",
  ["inputs", "programs", "histories"], "All graphs of curves, places inside and outside of the domain, minimum steps and limits, before and after changes to the underlying points.",
  "Tests step a few fixed curves; stepping composes through every derived curve type and has open/closed, minimum-step and limit edge cases.",
  ["curve.py", "points.py", "aggregate.py", "piecewise.py", "offset.py", "scan.py", "extension/extension.py"],
  [("x_next / x_previous", "curve.py:Curve.x_next"), ("x_next of points", "points.py:Points.x_next"), ("x_next of aggregates", "aggregate.py:Aggregate.x_next")])
p("C04", "Sampling returns start, every step and end of the requested range, once",
  "Sampling a curve over a range returns, in strictly ascending order, the start of the range (unless open), every step inside of it and its end (unless open), each with the curve's own value there; a fixed step gives the places of that grid instead. The value range of a curve is the smallest and largest value among its samples, and infinite ranges are refused.",
  ["inputs", "programs", "histories"], "All graphs of curves, ranges with open and closed ends inside, outside of and across the domain, minimum and fixed steps, after any history of changes.",
  "Tests sample fixed curves on closed ranges; open ends, steps near the end and derived curves are not covered.",
  ["curve.py", "points.py", "scan.py", "extremas.py"],
  [("sample_points", "curve.py:Curve.sample_points"), ("sample_points of points", "points.py:Points.sample_points"), ("sample_points of scans", "scan.py:Scan.sample_points")])
p("C05", "A derived curve always answers from the current data of its sources",
  "After any sequence of changes to source curves (points appended, replaced, removed or set, constants and lines changed), every curve built from them answers exactly as a curve freshly built from the current sources would. This holds for any nesting of derived curves, whether they were built before or after the changes and whatever was asked in between.",
  ["histories", "programs"], "All graphs of derived curves over mutable sources and all interleavings of changes with queries.",
  "Caches (domains, scans, accumulated points, extension curves, alignment tables) depend on which part was asked before which change; tests try a handful of histories on single curves.",
  ["scan.py", "accumulator.py", "sma.py", "ema.py", "extension/extension.py", "aggregate.py", "offset.py", "map.py", "points.py", "curve.py"],
  [("begin/end of scan updates", "scan.py:Scan.begin_scan_update"), ("domain cache invalidation", "curve.py:Curve.end_update"), ("extension refresh", "extension/extension.py:Extension")])
p("C06", "Accumulated curves do not depend on which questions were asked, or when",
  "The answers of accumulating curves (integrals, moving averages, trailing windows, running transforms) are the same for every order, repetition and choice of questions, including questions asked by observers while the source announces a change. Values scanned while the source is in the middle of an update never survive it.",
  ["histories", "schedules"], "All sequences of queries at any place, interleaved with changes of the source and with reads made inside update callbacks.",
  "The scan state is a function of the query history; tests ask in ascending order or once.",
  ["scan.py", "accumulator.py", "accumulator_map.py", "integral.py", "ema.py", "sma.py"],
  [("incremental scan", "scan.py:Scan.scan"), ("reset on stale", "scan.py:Scan._reset_scan_if_stale")])
p("C07", "Every change is announced to every observer it concerns, before and after",
  "A change to a source is announced by a begin and an end notification to the observers of every curve which depends on it, with an interval that covers everything which changes in that curve; all begins come before all ends. An observer limited to an interval is called exactly when the announced change meets it, a removed observer never, and a rejected or empty change announces nothing.",
  ["programs", "histories"], "All graphs of derived curves, observers with and without intervals registered and removed at any time, and histories of changes.",
  "Tests observe one curve and one append; interval translation through offset, extension, piecewise and scans and multi-path graphs are not tested.",
  ["curve.py", "points.py", "offset.py", "scan.py", "extension/extension.py", "map.py", "aggregate.py", "piecewise.py", "constant.py", "line.py"],
  [("begin_update / end_update", "curve.py:Curve.begin_update"), ("announced intervals", "points.py:Points.append_list"), ("translated intervals", "offset.py:Offset")])
p("C08", "Observers see the old data when a change begins and the new data when it ends",
  "While begin callbacks run, the changing curve and every curve derived from it which the observer may read still answer from the old data; while end callbacks run they answer from the new data. Reading them inside callbacks changes no later answer.",
  ["schedules", "programs", "histories"], "All graphs, observers on any curve of the graph which read any curve below it in their callbacks, and histories of changes.",
  "Depends on the order in which derived curves are told and on caches filled in the middle of an update; no test reads curves inside callbacks.",
  ["curve.py", "scan.py", "points.py", "extension/extension.py"],
  [("prioritized observers", "curve.py:Curve.add_observer"), ("domain cache", "curve.py:Curve.end_update"), ("scan reset at end", "scan.py:Scan.end_scan_update")])
p("C09", "The observer registry delivers each registration exactly as it was made",
  "Observers are called once per announcement in the order they were registered, with prioritized ones before all earlier ones; callbacks which take an argument get the announced interval and others get none. A registration ends when it is removed by its token or by its object, or when its object is no longer alive if it was registered to end so; tokens are never reused, and no other registration is affected (but those whose object is gone may end at any removal by object). Removing or adding registrations while observers are being called does not disturb the others.",
  ["histories"], "All histories of registrations (callbacks of either kind, objects, intervals, priority, autoremove), removals, dropped objects and announcements.",
  "Tests register one or two observers; order, priority, weak references and removal interact over histories.",
  ["curve.py", "util.py"], [("add_observer / remove_observer", "curve.py:Curve.add_observer"), ("argument counting", "util.py:count_positional_args")])
p("C10", "Overlapping and nested announcements begin and end consistently",
  "When announcements on one curve overlap or nest, begin is announced for everything not already announced, end exactly once when everything begun has ended, with an interval that covers all of it; until then the curve reports that it is updating and over which interval. Empty announcements have no effect.",
  ["schedules", "histories"], "All interleavings of begin and end announcements over arbitrary intervals, with derived curves and observers, mixed with real changes.",
  "The collected interval is a function of the whole interleaving; tests announce one update at a time.",
  ["curve.py"], [("begin_update, end_update", "curve.py:Curve.begin_update"), ("is_updating, update_interval", "curve.py:Curve.update_interval")])
p("C11", "Curve arithmetic is the arithmetic of values wherever all operands have one",
  "Sums, differences, products, quotients, powers and logarithms of curves, in any of their spellings and with numbers on either side, have at every x the value of that operation on the operands' values, no value where an operand has none, and the intersection of the operands' domains as their domain.",
  ["inputs", "programs", "histories"], "All operand curves and numbers, operand counts, spellings (operators, methods, class functions), places, and changes to the operands.",
  "Tests evaluate each operator at one or two places with total operands.",
  ["aggregate.py", "curve.py"], [("add_many, subtract_many, ...", "curve.py:Curve.add_many"), ("Aggregate.y, domain", "aggregate.py:Aggregate.y")])
p("C12", "Minimum, maximum, first and custom aggregates choose among available values",
  "The minimum and maximum of curves ignore operands without a value, the first-value curve takes the first operand with one, and a custom aggregate gets the values in the order of its operands; the domain is the union or the intersection of the operands' domains as requested, with the default value outside of it.",
  ["inputs", "programs", "histories"], "All operand lists, union and intersection, gaps in operands, and changes to the operands.",
  "Tests use two total operands.", ["aggregate.py", "curve.py"],
  [("min, max, first", "curve.py:Curve.min"), ("union, default", "aggregate.py:Aggregate")])
p("C13", "Mapped curves transform exactly the values of their source",
  "A mapped, negated, absolute, inverted, differentiated or restricted curve has at every x the transform of its source's value there (the transform gets x too if it takes two arguments), skips missing values only when asked to, and keeps the source's domain and steps (or the restricted domain).",
  ["inputs", "programs", "histories"], "All sources, transforms of one or two arguments, chains of maps, and changes to the source.",
  "Tests map one line; missing values, argument counting and chains are not covered.",
  ["map.py", "curve.py", "generic.py"], [("Map.y", "map.py:Map.y"), ("subset", "curve.py:Curve.subset")])
p("C14", "An offset curve is its source moved along x in every respect",
  "Values, domain, end points, steps, samples and slopes of an offset curve are those of its source moved by the offset, for any amount, for offsets of offsets, with a step limit, and after any change to the source. Offsetting by a number of durations moves each place by that number of durations.",
  ["inputs", "programs", "histories"], "All sources, amounts (negative, zero, fractional, repeated), durations, queries and changes.",
  "Tests read values at two places.", ["offset.py"], [("Offset", "offset.py:Offset")])
p("C15", "A piecewise curve is the curve of the piece whose interval holds x",
  "A piecewise curve has at every x the value of the curve whose interval contains x and no value in gaps; its steps are those of the pieces inside of their intervals plus the ends of the intervals. A blend is the first curve before the blend, the second after it and their weighted average within it.",
  ["inputs", "programs", "histories"], "All lists of pieces and adjacent or separate intervals with open and closed ends, places, and changes to the pieces.",
  "Tests use two pieces and read values only.", ["piecewise.py", "curve.py"],
  [("Piecewise.y, x_next", "piecewise.py:Piecewise"), ("blend", "curve.py:Curve.blend")])
p("C16", "An extension continues a curve past its ends and nowhere else",
  "Inside its source's domain an extended curve is the source; past the chosen ends it is the constant end value, or the tangent or regression line at that end, of the current source. Its domain is infinite exactly on the sides which are extended and could be, its steps continue at the last spacing, and an empty source has an empty extension.",
  ["inputs", "programs", "histories"], "All sources (empty, one point, many), sides, kinds and regression windows, and changes to the source.",
  "Tests extend one line of points once; changes, empty sources and one-sided extensions after changes are not tested.",
  ["extension/extension.py", "extension/constant.py", "extension/tangent.py"],
  [("Extension", "extension/extension.py:Extension"), ("TangentExtension", "extension/tangent.py:TangentExtension")])
p("C17", "The integral is the area under the curve's steps from the start of its domain",
  "The integral of a curve at one of its steps is the constant plus the sum, over all steps before it, of width times the value the integration rule (linear, previous, next) prescribes; between steps it interpolates linearly. Missing values contribute nothing and do not reset the sum.",
  ["inputs", "programs", "histories"], "All sources (irregular, with gaps, derived), rules, constants, minimum steps, and histories.",
  "Tests integrate one or two curves at a few places.", ["integral.py", "accumulator.py", "scan.py"],
  [("_integral_scan", "integral.py:Integral._integral_scan")])
p("C18", "Exponential moving averages and RSI follow their recurrence at every step",
  "An EMA starts at the first value (or its given initial curve), and at every step moves from the previous average towards the value by the smoothing factor, which for periods is the step length over the period; missing values leave it unchanged. The smoothed moving average is the EMA with factor one over the degree which starts from the simple average, and the RSI is the ratio of the EMAs of rises and falls.",
  ["inputs", "programs", "histories"], "All sources, factors, periods, initial curves, gaps, minimum steps, and histories.",
  "Tests check one series with one factor.", ["ema.py", "curve.py", "accumulator.py"],
  [("EMA", "ema.py:EMA"), ("smma, rsi", "curve.py:Curve.rsi")])
p("C19", "A simple moving average is the mean over its window of steps or period",
  "A simple moving average at a step is the source's integral over the window of the given number of steps (or period) which ends there, divided by the window's length; it starts at the first step with a complete window, interpolates between steps, and is empty when no window is complete.",
  ["inputs", "programs", "histories"], "All sources, degrees, periods, places between steps and histories of changes.",
  "Tests check a few averages on uniform data at the steps.", ["sma.py"], [("SMA", "sma.py:SMA")])
p("C20", "Trailing windows and running transforms see exactly their window of steps",
  "A trailing curve at a step is the transform of the values in its window (the last n steps, or the steps within the last period), newest first; a running curve is its transform folded over all steps from the start of the domain. Between steps they follow their interpolation rule.",
  ["inputs", "programs", "histories"], "All sources, window sizes, transforms of one or two arguments, interpolation rules, minimum steps and histories.",
  "Tests check trailing minimum and maximum of one list.", ["accumulator_map.py", "accumulator.py", "curve.py"],
  [("_accumulator_map_scan", "accumulator_map.py:AccumulatorMap"), ("_accumulate", "accumulator.py:Accumulator._accumulate")])
p("C21", "Extremas are the furthest points of each completed run beside the reference",
  "The extremas of a curve about a reference are, for every completed run of steps on one side of the reference, the step furthest from it, ignoring steps within the minimum deviation; a run completes when the curve is seen on the other side. They alternate sides, ascend in x, have the curve's current values, and after a change equal those of a fresh computation.",
  ["inputs", "histories"], "All curves and references, deviations, scan orders and changes to either of them.",
  "Tests check one zig-zag curve once.", ["extremas.py"], [("Extremas", "extremas.py:Extremas")])
p("C22", "Quote curves read, append and derive the quotes they were given",
  "A quotes curve holds exactly the encoded quotes it was given: its value at x is the quote at or before x inside its domain, and its open, high, low, close, volume and mid curves, trailing highs and lows and value range are those fields' values and extremes. Appending encodes each quote once and updates all of them.",
  ["inputs", "histories"], "All series of quotes, durations, encoders, ranges and histories of appends.",
  "Tests append once and read one field.", ["quotes.py"], [("Quotes", "quotes.py:Quotes")])
p("C23", "Constants, lines, functions and sines evaluate, step and differentiate exactly",
  "A constant has its value, a line its constant plus slope times x (however it was specified), a function curve its function inside its domain and a sine its formula with the matching derivative everywhere; they step by the requested amount up to the limit and inside the domain. Changing a constant or a line changes exactly that, and setting what is already set announces nothing.",
  ["inputs", "histories"], "All parameters, specifications, domains, places, steps, limits and changes.",
  "Tests evaluate one instance each.", ["constant.py", "line.py", "generic.py", "sin.py", "empty.py", "curve.py"],
  [("Line", "line.py:Line"), ("Constant", "constant.py:Constant"), ("Sin", "sin.py:Sin")])
p("C24", "A parsed description builds the curve that the same calls would build",
  "Parsing a JSON description gives a curve which answers like the one built by calling the named functions directly, for nested, chained, decorated and positional/keyword arguments; descriptions of points, numbers and functions parse to those curves. Inside @log, @log2 and @log10 numbers in lists and positional arguments are taken to log space once, and the result is raised back by the base; inside @date texts are times. Parsing does not change the description, and ill-formed descriptions are refused.",
  ["programs", "inputs"], "All descriptions composed from the supported functions and decorators, of any nesting and argument style.",
  "Tests parse a handful of descriptions; composition of chaining, nesting and decorators is unbounded.",
  ["curve.py"], [("parse, parse_descriptor", "curve.py:Curve.parse_descriptor")])
p("C25", "Regression is the least-squares line through the sampled points",
  "The regression of a curve over a range is the line through its two samples, or the least-squares line through all of them when there are more; there is none with fewer than two samples or with a missing value.",
  ["inputs", "programs", "histories"], "All curves, ranges, steps and histories.",
  "Tests fit one set of points.", ["curve.py"], [("regression", "curve.py:Curve.regression")])
p("C26", "Minimise and maximise stop at a local extreme reached by going one way",
  "Searching for a minimum (maximum) from a step moves along steps in the direction in which values fall (rise) and returns a step whose neighbours on both sides are not lower (higher), or nothing when values run off an end; it always ends.",
  ["inputs", "programs"], "All curves with steps, starting places and value shapes, including plateaus, gaps and ends.",
  "Tests search one parabola.", ["curve.py"], [("minimise, maximise", "curve.py:Curve.minimise")])
p("C27", "Trend lines run through points of their curve, within tolerance and limits",
  "Every trend line reported for a curve runs through trend points which are scanned points of that curve, in order, each once: at least the required number of points, at least the minimum distance apart, over at least the minimum width; extremes on the line's side and points within tolerance of the line. The line is the one through two points or fitted to more; touches and extremes are scanned points, crossings lie between points on either side of the line, and the interval in which the line is searched, the places at which it is said to pass and its prediction (target, confirmation and retest limits) follow from these by the documented ratios. Copies of a line say the same.",
  ["inputs", "histories"], "All point curves, tolerances, minimum widths, distances and numbers of points, and scan positions.",
  "Tests check counts of lines for a few shapes.", ["trend.py"], [("Trend, TrendLine", "trend.py:Trend")])
p("C28", "Scanning for trends step by step finds what one scan finds",
  "The trend lines, their points and their predictions at a place are a function of the curve's points alone: the same whether the curve was scanned in one go, place by place in any order, or again after points were appended or replaced. While points are only added, the predictions of a line through them only advance in their defined order until success or failure.",
  ["histories", "schedules"], "All point curves, sequences of places asked and histories of appends and replacements.",
  "Tests scan once in one direction.", ["trend.py", "scan.py"], [("scan, update_prediction", "trend.py:TrendLine.update_prediction")])
p("C29", "A curve's slope is the difference quotient to its next or previous step",
  "The slope of a curve at x is the difference quotient between x and its next (forward) or previous step, or none where either has no value; the differential curve has the slope as its value and follows every change.",
  ["inputs", "programs", "histories"], "All curves, directions, minimum steps, places on, between and outside of steps, and histories.",
  "Tests check one slope of a line.", ["curve.py", "map.py", "line.py", "constant.py", "offset.py"], [("d_y, differential", "curve.py:Curve.d_y")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
        f.write(json.dumps(q) + "\n")
print(len(P))
