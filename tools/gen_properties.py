#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

SIG = "src/core/signal.cc"; SIGH = "src/include/signal_tl/signal.hpp"
ROB = "src/robust_semantics/classic_robustness.cc"; MM = "src/robust_semantics/minmax.cc"
AST = "src/core/ast.cc"; ASTH = "src/include/signal_tl/ast.hpp"
ACT = "src/parser/actions.hpp"; GRA = "src/parser/grammar.hpp"; PAR = "src/parser/parser.cc"
samples = [("samples", "the ordered sample list of a signal", SIGH)]

# ------------------------------------------------------------------ signals
prop("S01", "Signals stay strictly time-ordered under any sequence of appends",
 "Appending a sample succeeds exactly when its timestamp is later than the signal's current end (any timestamp is accepted by an empty signal); otherwise it raises an error and leaves the signal as it was. Timestamps of a signal are therefore always strictly increasing, and every accepted sample keeps its time and value bit for bit, in order, as seen through size, begin/end time, first/last sample, indexed access and iteration.",
 ["inputs", "histories"], "All sequences of append calls with arbitrary double timestamps and values (NaN, infinities, signed zeros, denormals included).",
 "test_signals.cc is not even built; test_append_error.cc only evaluates three fixed traces. No test sees an equal timestamp, a rejected append followed by further use, or a special floating-point value.",
 [SIG, SIGH], [("Signal::push_back", SIG)], ["Signal accessors"], samples)
prop("S02", "Every way of building a signal yields exactly the given samples",
 "Building a signal from parallel value and time lists, from a sequence of samples, or by copying a signal yields exactly the given times and values in the given order; each sample carries the slope of the straight line to its successor (zero for the last one), whatever slopes the input samples carried. Lists of different lengths, and timestamps that do not strictly increase, are rejected with an error.",
 ["inputs"], "All sample lists (any length, any values, any timestamps).",
 "Tests build signals from three fixed, equally long, equally spaced vectors and never read them back.",
 [SIGH, SIG], [("Signal constructors", SIGH), ("Signal::push_back", SIG)], ["Signal accessors"], samples)
prop("S03", "Looking up a time returns the piecewise-linear value there",
 "Looking up a signal at a time inside its span returns a sample with that time whose value is the stored value when a sample exists at that time, and otherwise lies on the straight line between the two neighbouring samples (with that line's slope). A time before the first or after the last sample, or any lookup on an empty signal, is rejected with an error.",
 ["inputs"], "All signals and all lookup times.",
 "No test calls the lookup at all.",
 [SIG], [("Signal::at", SIG)], ["Signal::at"], samples)
prop("S04", "Range iterators select exactly the samples inside a time range",
 "Iterating from 'begin at s' visits exactly the samples timed at or after s, and iterating up to 'end at t' visits exactly the samples timed at or before t; both are valid positions of the signal for every s and t, including ones outside its span and on an empty signal.",
 ["inputs"], "All signals and all s, t.",
 "No test calls the range iterators.",
 [SIGH], [("Signal::begin_at / end_at", SIGH)], ["iterators"], samples)
prop("S05", "Simplifying a signal never changes the function it represents",
 "Simplifying returns a signal over the same time span whose value at every instant equals the original's; its samples are a subset of the original samples, the original is untouched, and interior samples of a run of equal values are removed.",
 ["inputs"], "All signals; every instant of the span.",
 "No test calls simplify; the interesting cases are particular patterns of equal and unequal neighbours.",
 [SIG], [("Signal::simplify", SIG)], ["Signal::simplify"], samples)
prop("S06", "Resizing cuts or extends a signal to exactly the requested span",
 "Resizing a non-empty signal to [start, end] (start < end) yields a signal that begins exactly at start and ends exactly at end, keeps every original sample inside the range with its value, and has at each end the original's interpolated value if the original is defined there and the fill value if it is not. It contains no other samples, and the original is untouched.",
 ["inputs"], "All signals, all ranges (inside, overlapping, containing, disjoint), all fill values.",
 "No test calls resize.",
 [SIG], [("Signal::resize", SIG)], ["Signal::resize"], samples)
prop("S07", "Shifting translates timestamps and nothing else",
 "Shifting a signal by dt yields the same values with every timestamp moved by dt and slopes unchanged; resize-and-shift equals resizing and then shifting. The original is untouched.",
 ["inputs"], "All signals, all shifts (positive, negative, zero) for which timestamps stay distinct.",
 "No test calls shift or resize_shift.",
 [SIG], [("Signal::shift / resize_shift", SIG)], ["Signal::shift", "Signal::resize_shift"], samples)
prop("S08", "Synchronising aligns two signals without changing their values",
 "Synchronising two signals returns two signals with identical timestamps: exactly the timestamps of either input that lie in the span where both are defined. At each of them, each output has the value its own input has there (interpolated where needed); two signals that never overlap give two empty signals, swapping the inputs swaps the outputs, and the inputs are untouched.",
 ["inputs"], "All pairs of signals with any interleaving of timestamps, any start and end offsets, any values.",
 "Tests only synchronise signals with identical timestamps; staggered starts, interleavings and disjoint spans are never reached.",
 [SIG], [("synchronize", SIG)], ["synchronize"], samples)
prop("S09", "Sample geometry: interpolation, crossing, area, order, negation",
 "A sample stands for a straight line through its point with its slope: interpolation gives the line's value, the crossing time of two lines of different slope is the time where they are equal, and the area up to a later time is the trapezoid under the line (zero for an earlier time). Comparing two samples compares their values only, and negating a sample negates value and slope and keeps the time.",
 ["inputs"], "All samples and times.",
 "No test exercises these directly; only three fixed traces reach crossing times.",
 [SIGH], [("Sample::interpolate / time_intersect / area, comparison operators, unary minus", SIGH)], ["Sample"], None)

# ------------------------------------------------------------------ robustness
TR = "All formulas of the stated shape and all traces: any sample values, any timestamps."
prop("R01", "A predicate's robustness is its signed margin",
 "The robustness of 'x > c' and 'x >= c' at each sample of x is x - c, and of 'x < c' and 'x <= c' it is c - x, at exactly the timestamps of x.",
 ["inputs"], TR + " All comparison operators and constants, NaN and infinities included.",
 "The only robustness test checks that no exception is thrown; it never looks at a value.",
 [ROB], [("RobustnessOp::operator()(Predicate)", ROB)], ["compute_robustness"])
prop("R02", "Negation flips the sign of robustness at every instant",
 "The robustness of a negated formula has the same timestamps as that of the formula itself and the opposite value at each of them; negating twice restores the original robustness.",
 ["inputs"], TR, "No test evaluates a negation.",
 [ROB, AST], [("RobustnessOp::operator()(Not)", ROB)], ["compute_robustness"])
prop("R03", "Conjunction is the pointwise minimum, disjunction the pointwise maximum",
 "Over the time span where both operands are defined, the robustness of a conjunction is the smaller and of a disjunction the larger of the operands' robustness: exactly at every timestamp of either operand, and in between by including a sample where the operands cross, so that the piecewise-linear result follows the true minimum or maximum. This holds whether or not the operands share timestamps, spans or sampling rates.",
 ["inputs"], TR + " Including staggered starts, crossings exactly at and arbitrarily close to a sample.",
 "The one robustness test uses three fixed traces with common integer timestamps and does not look at values.",
 [MM, SIG, ROB], [("compute_minmax_pair", MM), ("synchronize", SIG)], ["compute_robustness"])
prop("R04", "N-ary conjunction and disjunction take every operand into account",
 "For any number of operands, the robustness of a conjunction (disjunction) at each timestamp in the common span is the minimum (maximum) over all operands, independent of their order and of how they are grouped into nested conjunctions (disjunctions).",
 ["inputs", "programs"], "All operand counts, all operand orders and groupings, all traces.",
 "No test checks a value; no test has a connective with more than two operands evaluated.",
 [MM, ROB], [("compute_minmax_pair (n-ary fold)", MM)], ["compute_robustness"])
prop("R05", "Constants are +/-infinity everywhere and behave as units and zeros",
 "The robustness of 'true' is +infinity and of 'false' is -infinity over the whole time span covered by the trace. Inside any connective they act accordingly at every timestamp: conjunction with true and disjunction with false leave the other operand's robustness unchanged, conjunction with false is -infinity and disjunction with true is +infinity.",
 ["inputs"], TR + " Constants in any operand position, built directly or by the parser.",
 "No test evaluates a constant; interpolating an infinite signal between samples is where it goes wrong.",
 [ROB, SIG, MM], [("RobustnessOp::operator()(Const)", ROB), ("Sample::interpolate", SIGH)], ["compute_robustness"])
prop("R06", "Unbounded always/eventually are the suffix minimum/maximum",
 "The robustness of 'always f' ('eventually f') without an interval at each timestamp of f's robustness is the minimum (maximum) of f's robustness over that and all later timestamps, and it is defined at exactly those timestamps.",
 ["inputs"], TR + " All finite values and infinities.",
 "The one robustness test checks no value.",
 [MM, ROB], [("compute_minmax_seq(x, comp)", MM)], ["compute_robustness"])
prop("R07", "Bounded always/eventually take the extremum over exactly [t+a, t+b]",
 "The robustness of 'always[a,b] f' ('eventually[a,b] f') at each timestamp t of f's robustness is the minimum (maximum) of f's piecewise-linear robustness over the closed window [t+a, t+b], window ends included and interpolated, where f keeps its last value beyond its end. The interval is never ignored, for any a < b, including a > 0, b infinite, integer-valued bounds, punctual integer intervals [a,a], and windows longer than the signal.",
 ["inputs"], TR + " All intervals.",
 "No test uses an interval.",
 [MM, ROB, ASTH], [("compute_minmax_seq(x, a, b, comp)", MM), ("RobustnessOp::operator()(Always/Eventually)", ROB), ("Interval::has_value", ASTH)], ["compute_robustness"])
prop("R08", "Unbounded until is the strong until over the sampled instants",
 "The robustness of 'f until g' at each common timestamp t of f and g (all timestamps of either in their common span) is the maximum, over common timestamps t' >= t, of the minimum of g at t' and of f at every common timestamp from t to t'. In particular it is never positive when g never is.",
 ["inputs"], TR, "No test evaluates until.",
 [ROB], [("compute_until", ROB)], ["compute_robustness"])
prop("R09", "Robustness of nested formulas is computed compositionally",
 "For any nesting of constants, predicates, negation, conjunction, disjunction, always, eventually and until, the robustness signal of the whole formula equals what the definitions of the operators give when applied bottom-up to the robustness signals of the sub-formulas; a sub-formula contributes the same robustness wherever it occurs.",
 ["inputs", "programs"], "All formula trees and all traces.",
 "One fixed formula is evaluated by the tests, without looking at the result.",
 [ROB, MM, AST], [("compute / std::visit dispatch", ROB)], ["compute_robustness"])
prop("R10", "Dual operators agree through negation",
 "Always and eventually (with or without interval), and conjunction and disjunction, are duals: the robustness of 'always f' equals that of 'not eventually not f', and that of 'f and g' equals that of 'not (not f or not g)', at every timestamp, and likewise with the roles exchanged.",
 ["inputs"], TR, "No test compares two evaluations.",
 [ROB, MM], [("compute_minmax_seq", MM), ("compute_minmax_pair", MM)], ["compute_robustness"])
prop("R11", "The sign of robustness never contradicts the Boolean verdict",
 "If the robustness of a formula at a timestamp is positive, the trace satisfies the formula there in the Boolean reading; if it is negative, the trace violates it. The Boolean reading is over the trace's sampled instants together with the instants where the operands of a conjunction or disjunction cross. A trace on which no disjunct, no awaited event and no predicate ever holds never gets a positive robustness.",
 ["inputs", "programs"], "All formulas without bounded until, all traces with a common time base.",
 "No test looks at a robustness value or at satisfaction.",
 [ROB, MM], [("RobustnessOp", ROB)], ["compute_robustness"])
prop("R12", "Evaluation leaves trace and formula untouched and is repeatable",
 "Computing robustness never changes the trace, its signals or the formula, and evaluating again, directly or after evaluating other formulas on other traces, gives the same result. The result does not depend on signals of the trace that the formula does not mention, except for the time span of constants.",
 ["inputs", "histories"], "All formulas, traces and orders of evaluation.",
 "Tests evaluate each trace once and inspect nothing afterwards.",
 [ROB, MM, SIG], [("RobustnessOp (shared_ptr aliasing of operand signals)", ROB)], ["compute_robustness", "Trace"])
prop("R13", "Evaluation succeeds on every valid trace, whatever the rounding",
 "Evaluating conjunctions and disjunctions of predicates over non-empty overlapping signals with finite values never raises an error, and the result is a signal with strictly increasing timestamps that starts and ends where the operands' common span does, even when floating-point rounding puts the computed crossing of two operands on or outside the neighbouring timestamps.",
 ["inputs"], "All finite traces, every possible rounding of the crossing computation.",
 "The tests contain three recorded traces that once failed; rounding cases cannot be enumerated.",
 [MM, SIG], [("compute_minmax_pair crossing guard", MM), ("Signal::push_back", SIG)], ["compute_robustness"])
prop("R14", "What cannot be evaluated is reported as an error, not as a number",
 "Evaluating a formula that mentions a signal absent from the trace, a bounded until, or an operator whose interval has its upper bound below its lower bound raises an error wherever in the formula it occurs; no robustness value is returned.",
 ["inputs", "programs"], "All formulas containing such a construct, all traces.",
 "No test evaluates such a formula.",
 [ROB, ASTH], [("compute_until(bounded)", ROB), ("trace.at", ROB)], ["compute_robustness"])
prop("R15", "Robustness is equivariant under time translation",
 "Moving every signal of a trace by the same amount of time moves the robustness signal of any formula by that amount and changes none of its values.",
 ["inputs", "programs"], "All formulas, traces and translations for which the moved timestamps are exact.",
 "No test compares two evaluations.",
 [ROB, MM], [("RobustnessOp", ROB)], ["compute_robustness"])
prop("M01", "The sliding-window wedge always fronts the extremum of the window",
 "After any history of pushing values onto the monotonic wedge and popping old ones from its front, the wedge is sorted by the comparison, its last element is the last value pushed, and its front is the minimum (maximum) of all pushed values not yet popped; nothing that could still become the extremum is dropped.",
 ["histories", "inputs"], "All wedges of any size reachable by push and pop, all values.",
 "Nothing in the tests reaches the wedge at all.",
 ["src/robust_semantics/mono_wedge.h"], [("mono_wedge_search / mono_wedge_update", "src/robust_semantics/mono_wedge.h")], ["mono_wedge_update"])

# ------------------------------------------------------------------ AST
prop("A01", "Intervals are validated and keep their bounds",
 "Creating a real-valued interval succeeds exactly when 0 <= a < b (b may be infinite) and otherwise raises an error, NaN bounds included. An interval reports exactly the bounds it was given, integer bounds converted to the nearest double, and counts as 'has a bound' exactly when it is not [0, infinity).",
 ["inputs"], "All pairs of doubles and of 64-bit unsigned integers.",
 "No test creates an interval.",
 [ASTH], [("Interval constructors, as_double, has_value, is_zero_to_inf", ASTH)], ["Interval"])
prop("A02", "Combining formulas with & | ~ never loses or adds an operand",
 "Combining formulas with & and | gives a conjunction (disjunction) of exactly the operands in order, where a left operand that is itself a conjunction (disjunction) is merged with the right one, and the constants true and false act as unit and zero; no combination of valid formulas raises an error. Negation wraps the formula and flips constants, and combining never modifies the formulas that were combined.",
 ["inputs", "programs"], "All pairs of formulas of any kind, including constants in either position.",
 "Tests build two fixed formulas with & and never inspect them.",
 [AST], [("operator&, operator|, operator~, AndHelper, OrHelper", AST)], ["ast::Expr"])
prop("A03", "Implication, exclusive or and equivalence have their logical meaning",
 "The robustness of 'implies(x,y)', 'xor(x,y)' and 'iff(x,y)' at each timestamp equals that of (not x) or y, of (x or y) and (not x or not y), and of (x and y) or (not x and not y) respectively; with constant operands they reduce to the corresponding truth-table rows.",
 ["inputs", "programs"], "All operand formulas including constants, all traces.",
 "The parser test parses one implication and does not look at the result.",
 [AST], [("Implies, Xor, Iff", AST)], ["compute_robustness", "ast::Expr"])
prop("A04", "Predicate and operator builders record exactly what they are given",
 "Comparing a named signal with a constant using <, <=, >, >= yields a predicate with that name, that comparison and that constant; the builders for not, and, or, always, eventually and until store the given operands in the given order and the given interval, and conjunctions or disjunctions with fewer than two operands are rejected with an error. Two predicates are equal exactly when name, comparison and constant are equal, and two constants exactly when their truth values are.",
 ["inputs"], "All names, constants, intervals and operand lists.",
 "Tests never inspect a built formula.",
 [AST, ASTH], [("Predicate operators, builder functions, And/Or constructors", AST)], ["ast::Expr"])

# ------------------------------------------------------------------ parser
prop("P01", "A well-formed specification means exactly the formula it spells",
 "Parsing '(define-formula name F)' or '(assert name F)' binds name to the formula F spells: every operator keyword yields its operator with its operands in the written order, for any nesting (up to the parser's limit of 1000 levels), and a name used inside F stands for the formula previously defined under it. All commands take effect in order, and nothing else is defined.",
 ["inputs", "programs"], "All well-formed specifications.",
 "Tests only check that parsing a handful of fixed files does not throw; the parsed formula is never looked at.",
 [ACT, GRA, PAR], [("PEG actions", ACT), ("grammar rules", GRA)], ["parser::from_string"])
prop("P02", "Malformed specifications are rejected, never half-accepted",
 "Input that is not a sequence of well-formed commands raises an error instead of yielding a specification: missing or surplus operands, operands after a complete expression, unknown keywords, unbalanced or stray parentheses, several commands in one pair of parentheses, an empty command, and trailing garbage.",
 ["inputs"], "All malformed token sequences.",
 "Three fixed failing files are tested.",
 [GRA, ACT], [("grammar rules", GRA)], ["parser::from_string"])
prop("P03", "Comparisons are parsed with the right direction and exact constant",
 "'(op x c)' and '(op c x)' both yield the predicate on x that is true for the same values, for each of < <= > >=. The constant is the double nearest to the decimal numeral written (integer, decimal or exponent notation), and a numeral that cannot be represented is rejected with an error.",
 ["inputs"], "All comparison operators, operand orders, signal names and numerals.",
 "Tests parse four comparisons with the constants 0 and 10 and never look at the result.",
 [ACT, GRA], [("PredicateTerm, IntegerLiteral, DoubleLiteral actions", ACT)], ["parser::from_string"])
prop("P04", "Whitespace and comments never change the meaning",
 "Replacing, adding or removing white space or ';' line comments between tokens (where a separator is not needed to keep two words apart) does not change whether a specification is accepted or what it means; a comment hides everything up to the end of its line and nothing more, also at the end of the input.",
 ["inputs"], "All placements of blanks, tabs, newlines and comments with any comment text.",
 "The test files use a single layout style.",
 [GRA], [("Skip, Sep, LineComment, EndOfWord", GRA)], ["parser::from_string"])
prop("P05", "Parsing any byte string terminates in a result or an error, safely",
 "For every byte string, parsing ends with either a specification or an exception; it never reads outside the input, uses uninitialised data, crashes (however deeply the input is nested) or hangs, and the outcome depends on the input alone.",
 ["inputs"], "All byte strings.",
 "Fixed files only.",
 [PAR, GRA, ACT], [("PEGTL grammar and actions", PAR)], ["parser::from_string"])
prop("P06", "Names are resolved strictly: no undefined, redefined or leaking names",
 "Using a name that has no earlier define-formula raises an error, as does defining a formula or an assertion twice under one name, and nothing of a rejected specification is returned. Formulas and assertions live in separate name spaces, names are matched exactly (case-sensitive, whole word, keywords usable as prefixes), and one parse never sees names from another.",
 ["inputs", "histories"], "All sequences of definitions, assertions and references.",
 "No failing test exercises names; the passing ones use each name once.",
 [ACT, GRA], [("DefineFormula, Assertion, Term actions", ACT)], ["parser::from_string"])

# ------------------------------------------------------------------ formatting, bindings
prop("F01", "Printing a formula shows its structure, operators and intervals",
 "The printed form of a formula shows every operator with its operands in order: predicates as '(name op constant)', negation with ~, conjunction and disjunction joined by & and | in parentheses, G and F before their operand and U between its operands in parentheses, each with its interval exactly when it is not [0, infinity). Formulas of different structure, operators, names or intervals print differently.",
 ["inputs", "programs"], "All formulas.",
 "Examples print two formulas and nothing checks the text.",
 ["src/include/signal_tl/fmt.hpp"], [("fmt::formatter specialisations", "src/include/signal_tl/fmt.hpp")], ["fmt::format"])
prop("B01", "The Python bindings expose the same results as the C++ library",
 "Every attribute and function exposed to Python returns what the corresponding C++ member returns: sample time, value and slope, formula operands and intervals, signal operations and robustness.",
 ["inputs"], "All objects reachable from Python.",
 "There are no Python tests and the bindings are not built.",
 ["python_bindings/pyast.cc", "python_bindings/pysignal.cc", "python_bindings/pyrobustness.cc"], [("pybind11 module definitions", "python_bindings/")], ["signal_tl Python package"])
prop("P07", "Reading a specification file equals parsing its contents",
 "Parsing a file gives the same specification or an error exactly as parsing a string with the file's contents does.",
 ["inputs"], "All files.",
 "Seven fixed files.",
 [PAR], [("from_file", PAR)], ["parser::from_file"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
