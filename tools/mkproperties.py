#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
H = "include/ieme/"
def at(f):
    return f[1:] if f[0] == '/' else H + f

def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[at(f) for f in files],
                          mechanism=[dict(name=n, where=at(w)) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=at(c)) for a, b, c in state]
    d["anchors"]["observe_at"] = observe or ["return values of the public API"]
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Fraction arithmetic is exact rational arithmetic under every policy",
 "For two defined fractions, or a fraction and an integer on either side, the value of left + right, left - right, left * right, left / right (non-zero divisor), left % right (the remainder of truncated division, with the sign of the dividend) and of unary plus and minus is exactly the rational number ordinary arithmetic gives. This holds for every arithmetic policy, every standard integer representation of at least int's width and every pair of mixed representations (computed in their common type), wherever the signs are placed, as long as the values the policy works with (the operands after its input reduction, the products, and the common denominator: the least one for safe policies, the product for fast ones) fit the representation. Operands are never modified.",
 ["inputs", "configurations"], "all in-range operand pairs, all policies (named and composed), all representations and representation pairs, all three operand forms",
 "The tests evaluate about 50 fixed pairs of one- and two-digit operands, mostly with positive denominators, in 8 policies for int; correctness over all magnitudes, sign placements, representation pairs and composed policies is a universal claim.",
 ["ops.hpp", "fraction.hpp", "raw_fraction.hpp"],
 [("safe::plus/minus/multiplies/divides/modulus", "ops.hpp"), ("fast::*", "ops.hpp"), ("reduced_input / reduced_output decorators", "ops.hpp"), ("IEME_DEFINE_FRACTION_ARITHMETIC_OPS", "fraction.hpp")])

prop("C02", "Comparisons decide the exact rational order",
 "For defined operands the six comparisons of two fractions, or of a fraction and an integer on either side, agree with the order of the rational numbers they denote, whichever of numerator and denominator carries the sign and whether or not the fractions are in lowest terms. This holds under every policy and every pair of representations as long as the scaled numerators the policy compares fit the representation.",
 ["inputs", "configurations"], "all in-range operand pairs incl. equal values in different forms, all policies, representation pairs and operand forms",
 "The tests compare a few dozen fixed small pairs; no ordering test has a negative denominator except for equal values, and none compares close large values.",
 ["ops.hpp", "fraction.hpp"],
 [("safe::equal_to/less/less_equal", "ops.hpp"), ("fast::equal_to/less/less_equal", "ops.hpp"), ("IEME_DEFINE_FRACTION_COMPARISON_OPS", "fraction.hpp")])

prop("C03", "Undefined values propagate quietly and never trap",
 "If an operand of +, -, *, / or % is undefined (denominator zero), or the divisor of / or % is zero, the result is undefined; the operation always returns instead of trapping. Negation, absolute value, reduction and sign normalisation of an undefined fraction are undefined too, every comparison with an undefined operand is false except !=, which is true, and converting one to floating point gives NaN.",
 ["inputs", "configurations"], "all operands with a zero denominator (any numerator) or zero divisor in any position, all policies, representations and operand forms",
 "Tests only compare undefined fractions with one or two fixed values; no test ever passes an undefined operand or a zero divisor to an arithmetic operator.",
 ["ops.hpp", "raw_fraction_math.hpp", "fraction_math.hpp", "floating_point.hpp", "limits.hpp"],
 [("is_undefined guards in ops", "ops.hpp"), ("reduce_ignore_signs", "raw_fraction_math.hpp"), ("numeric_limits::has_quiet_NaN / traps", "limits.hpp")])

prop("C04", "Output-reducing policies always return canonical lowest terms",
 "Under a policy that reduces its output, the result of every arithmetic operator (including negation and compound assignment) has coprime numerator and denominator, and, unless that policy was composed to ignore signs, a positive denominator; zero is 0/1 and undefined results are 0/0. Two such results are therefore equal in value exactly when they are component-wise identical.",
 ["inputs", "configurations"], "all in-range operand pairs, all output-reducing policies (named and composed), all operators and operand forms",
 "Tests check results with value equality only, so the representation of results is never observed.",
 ["ops.hpp", "raw_fraction_math.hpp"],
 [("reduced_output decorator", "ops.hpp"), ("reduce", "raw_fraction_math.hpp")])

prop("C05", "Safe policies stay exact whenever the least common denominator fits",
 "Under the safe policies, sums, differences, remainders and comparisons of two fractions are exact whenever the least common denominator of the operands and the operands' numerators scaled to it fit the representation, even where the product of the denominators does not. With input reduction the same holds with respect to the operands in lowest terms, however large the common factors of the unreduced operands are.",
 ["inputs", "configurations"], "denominators with large common factors, up to the largest representable least common denominator; all safe policies and representations",
 "The tests use denominators below 20, where the least common denominator and the product are both tiny.",
 ["ops.hpp", "raw_fraction_math.hpp"],
 [("std::lcm scaling in safe::plus/minus/modulus/equal_to/less/less_equal", "ops.hpp"), ("reduced_input", "ops.hpp")])

prop("C06", "Any history of updates tracks the exact rational values",
 "After any sequence of assignments and compound assignments (+=, -=, *=, /=, %=) among several fraction variables and integers of possibly different representations, including a variable with itself or with its own numerator or denominator as operand, every variable holds exactly the value that rational arithmetic gives, and only the assigned variable has changed. A compound assignment is equivalent to assigning the corresponding binary operation and returns the assigned variable, and all policies yield the same values for the same history while it stays in range.",
 ["histories", "configurations"], "all finite operation sequences over several variables (while the values stay in range), all policies, mixed operand representations, aliased operands",
 "Tests perform one compound assignment on a fresh variable; no test chains operations or aliases operands.",
 ["fraction.hpp", "ops.hpp"],
 [("IEME_DEFINE_FRACTION_COMPOUND_ASSIGNMENT_OPS", "fraction.hpp"), ("policies", "ops.hpp")],
 state=[("numerator, denominator", "current value of a fraction variable", "raw_fraction.hpp")])

prop("C07", "Reduction and sign normalisation are canonical and value-preserving",
 "Reducing a defined fraction yields an equal value in lowest terms; in the default mode the denominator is positive, and when signs are ignored each component keeps its sign. Normalising signs keeps the magnitudes and makes the denominator positive; both are idempotent, equal values reduce to identical components, and a defined fraction is reported as reduced exactly when reducing it leaves it unchanged (and as reduced ignoring signs exactly when its components are coprime).",
 ["inputs"], "all defined fractions of every representation, both for raw and policy-carrying fractions",
 "Tests cover five fixed fractions; is_reduced is never asked about a positive numerator over a negative denominator.",
 ["raw_fraction_math.hpp", "fraction_math.hpp", "raw_fraction_queries.hpp", "reduce_mode.hpp"],
 [("reduce_ignore_signs / normalize_signs", "raw_fraction_math.hpp"), ("is_reduced / is_reduced_ignore_signs", "raw_fraction_queries.hpp")])

prop("C08", "trunc, floor, ceil, round and to_whole give the mathematical integers",
 "For every defined fraction, trunc is the value rounded toward zero, floor the greatest integer not above it, ceil the least integer not below it, and round the nearest integer with ties going up. to_whole with a rounding mode gives the same integer as the corresponding function and rounds to nearest by default; the result depends only on the value, not on reduction or sign placement. (The values the policy's arithmetic works with have to fit the representation.)",
 ["inputs", "configurations"], "all defined fractions (in-range), signs on either component, all policies and representations",
 "Tests round 7/3, 8/3 and 2 and their negations; no value between -1 and 1, no tie and no negative denominator is ever rounded directly.",
 ["fraction_math.hpp", "fraction_queries.hpp"],
 [("trunc/ceil/floor/round/to_whole", "fraction_math.hpp")])

prop("C09", "Redenomination gives the requested denominator and the right neighbour",
 "Redenominating a defined fraction to a non-zero denominator d yields a fraction whose denominator is exactly d and whose value is the multiple of 1/d that is: not above the value and closest to it (floor), not below and closest (ceil), closest toward zero (trunc), or nearest (round, either neighbour on ties). Values already expressible over d are unchanged, and the mode argument selects the same result as the named function, with rounding to nearest as default. (The result and the values the policy's arithmetic works with have to fit the representation.)",
 ["inputs", "configurations"], "all in-range fractions and non-zero target denominators of either sign, all modes, policies and representations",
 "Tests use 6 fractions and denominators 3, 4, 5, 8 with sign variants; no result lies in (-1, 0) numerators and no large values occur.",
 ["fraction_math.hpp"],
 [("*_redenominate / redenominate", "fraction_math.hpp")])

prop("C10", "Queries agree with the rational value",
 "For every fraction, is_defined/is_undefined tell whether the denominator is non-zero, and for defined ones is_positive, is_non_negative, is_zero, is_non_positive, is_negative, is_integer, is_proper (magnitude below one) and is_improper (its negation) agree with the rational value; is_unit_fraction holds exactly when the value is non-zero and its reciprocal is an integer. Undefined fractions have no sign and are neither zero, integer nor unit fraction; are_identical compares components and are_different is its negation; raw and policy-carrying fractions answer alike. The reciprocal swaps the components and abs gives the magnitude.",
 ["inputs", "configurations"], "all fractions of every representation including undefined ones and every sign placement",
 "Tests ask each query about two to eight hand-picked small fractions.",
 ["raw_fraction_queries.hpp", "fraction_queries.hpp", "math_utilities.hpp", "raw_fraction_math.hpp", "fraction_math.hpp"],
 [("is_* and are_*", "raw_fraction_queries.hpp"), ("forwarding overloads", "fraction_queries.hpp"), ("reciprocal, abs", "fraction_math.hpp")])

prop("C11", "Powers are exact for positive, zero and negative exponents",
 "pow2(e) equals two to the power e and pow(b, e) equals b to the power e exactly as a rational for every integer exponent whose power fits the representation: e = 0 gives one, a negative exponent gives the reciprocal, and a zero base with a negative exponent gives an undefined fraction. The integer helpers pow, pow2 and abs give the exact integer results.",
 ["inputs", "configurations"], "all bases and exponents whose power fits, all representations and policies",
 "Tests evaluate 12 fixed powers, exponents between -9 and 10.",
 ["fraction_math.hpp", "math_utilities.hpp"],
 [("pow / pow2", "fraction_math.hpp"), ("square-and-multiply pow", "math_utilities.hpp")])

prop("C12", "Floating-point values convert to exactly equal fractions",
 "to_fraction of a finite float or double returns a fraction exactly equal to it whenever that value, in lowest terms, has components whose magnitudes fit the chosen representation, including zero of either sign, small dyadic fractions, large integers and values whose scaled significand is odd. NaN and the infinities convert to an undefined fraction, and the conversion is available for every standard representation of at least int's width from both float and double.",
 ["inputs", "configurations"], "all float and double bit patterns whose exact value fits, all representations and policies",
 "Tests convert 24, 0.375, -32.125 and NaN; zero, wide significands and int from double are never tried.",
 ["floating_point.hpp"],
 [("floating_point_to_fraction", "floating_point.hpp")])

prop("C13", "Fractions convert to the closest floating-point values and back",
 "to_float, to_double and to_long_double of a defined fraction return the floating-point number nearest to the exact quotient whenever the reduced numerator and denominator are themselves exactly representable in the target, and otherwise a value within three units in the last place; equal fractions convert identically, the conversion is sign-symmetric, and among fractions whose reduced components are exactly representable in the target the order is never inverted. Converting a fraction with an exactly representable value to double and back with to_fraction returns an equal fraction.",
 ["inputs", "configurations"], "all defined fractions of every representation and policy",
 "Tests convert three dyadic fractions with exact results; rounding, reduction before conversion and large components are not reached.",
 ["floating_point.hpp"],
 [("fraction_to_floating_point", "floating_point.hpp")])

prop("C14", "Valid floating-point strings convert to exactly the value they denote",
 "Converting a string that is a valid unsuffixed C++ floating literal (decimal or hexadecimal, with optional whole or fractional part, digit separators, upper- or lowercase digits and markers, optional and optionally signed exponent) gives a fraction exactly equal to the number denoted, whenever the digit values, scale factors and products involved fit the representation. Redundant leading and trailing zeros, separators, letter case and an explicit plus sign do not affect the value.",
 ["inputs", "configurations"], "all strings of the literal grammar whose working values fit, all representations and policies",
 "Tests convert about 35 fixed strings; the grammar's combinations (missing parts, separators, exponent forms, both bases) and all digit values are not covered, nor is the form without radix point.",
 ["floating_point.hpp", "parse_utilities.hpp"],
 [("scan_floating_point_string", "parse_utilities.hpp"), ("digit_sequence_to_int", "parse_utilities.hpp"), ("floating_point_string_to_fraction", "floating_point.hpp")])

prop("C15", "Strings outside the floating-literal grammar are rejected, never misread",
 "Converting a byte string that is not a valid unsuffixed C++ floating literal always gives an undefined fraction, and converting a valid one whose working values fit the representation always gives a defined one; no such string (and, under a policy that neither reduces nor looks for common denominators, no string at all) makes the conversion trap. In particular signs, spaces, suffixes, misplaced or doubled digit separators, a hexadecimal number without binary exponent, missing digits or a bare integer are rejected.",
 ["inputs"], "all byte strings (acceptance decided against an independent recogniser of the grammar)",
 "Tests reject about 40 fixed strings; acceptance is a language-equality claim over all strings.",
 ["parse_utilities.hpp", "floating_point.hpp"],
 [("scan_floating_point_string / is_valid_digit_sequence", "parse_utilities.hpp")])

prop("C16", "Literals denote the written fractions at compile time",
 "In any program, n/d_fr is a compile-time constant whose numerator and denominator are exactly n and d (with any signs, and any integer type of n, which becomes the representation), longer literal expressions such as a + n/d_fr * m/k_fr follow the usual operator precedence exactly, and a _dec literal is a compile-time constant exactly equal to the decimal or hexadecimal number written.",
 ["programs", "inputs"], "all programs built from literal expressions whose values fit",
 "Tests contain about a dozen literal expressions, evaluated mostly at run time.",
 ["fraction_literals.hpp", "floating_point.hpp", "parse_utilities.hpp"],
 [("operator\"\"_fr, operator\"\"_dec, denominator_literal", "fraction_literals.hpp")])

prop("C17", "Text output and input of fractions round-trip",
 "Writing a fraction to a stream produces numerator, slash, denominator, and reading such text (optionally with blanks around the numbers) restores exactly the same components; any sequence of fractions written with separating blanks is read back in order with nothing lost or consumed beyond the denominator. The round trip works in every base, sign, padding and digit-grouping format set on the stream (for numbers that have a text in it), and the stream's settings stay as they were. Input without a number, without a slash or with an out-of-range number leaves the stream in a failed state, and so does output the stream cannot take; a stream set to throw reports this with its exception.",
 ["inputs", "histories"], "all fractions of every representation (raw and policy-carrying), all sequences of them, all blank paddings and formats",
 "Tests write and read the single fraction -5/7.",
 ["raw_fraction.hpp", "fraction.hpp"],
 [("operator<< / operator>>", "raw_fraction.hpp")])

prop("C18", "Hashes are consistent with equality",
 "Fractions that compare equal have equal hashes, through both ieme::hash and std::hash, so that unordered containers keyed by fractions hold one entry per value; raw fractions with identical components, and mixed numbers with the same whole and equal fractional parts, hash equally. Hashing never modifies its argument and never traps, undefined values included (the most negative component, which has no magnitude, is outside the fractions covered), and distinct values keep mostly distinct hashes (a run of a thousand evenly spaced whole numbers, or of their reciprocals, has hundreds of hashes).",
 ["inputs", "histories"], "all pairs of equal fractions in different forms, all insert/lookup/erase histories on unordered containers, all policies and representations",
 "Tests hash two fractions against themselves, component-wise identical; equal values in different forms are never hashed.",
 ["hash.hpp"],
 [("hash(fraction) / std::hash specialisations / hash_combine", "hash.hpp")])

prop("C19", "Limits bound every value, for fractions and mixed numbers alike",
 "limits and std::numeric_limits of a fraction or mixed number type are usable for every representation and policy: every fraction with components within the representation's range as the limits state it lies between min()/lowest() and max(), whole numbers do so as mixed numbers, smallest()/epsilon() is positive and no positive fraction is below it, undefined()/quiet_NaN() is undefined, and the traits (signedness, digits, radix, exponents, modulo behaviour, boundedness, absence of infinity, exactness) are those of the representation. The native and the standard interface agree, and min(), max() and zero() of durations and time points with fractional counts bound their counts alike.",
 ["inputs", "configurations"], "all fractions against the bounds, all representations, policies and both families of types",
 "Tests evaluate the constants for int only and never instantiate the mixed number specialisations; that no value lies outside the bounds is a claim over all values.",
 ["limits.hpp", "mixed_number.hpp"],
 [("limits<fraction>, limits<mixed_number>, std::numeric_limits specialisations", "limits.hpp")])

prop("C20", "Mixed numbers keep their value and stay in canonical form",
 "Constructed from a whole and a fractional part or from a fraction, negated, or obtained by adding mixed numbers, fractions and integers in any order and number, a mixed number's value is exactly the corresponding rational sum, its fractional part is proper, and its whole and fractional parts never have opposite signs. Converting to a fraction gives exactly whole plus fractional part and converting back gives the same whole part. An undefined fractional part makes the mixed number undefined: its fractional part and the fraction it converts to are undefined, without trapping.",
 ["inputs", "histories", "configurations"], "all in-range constructions and addition/negation histories, all policies, and distinct whole and fractional representations",
 "Tests construct about ten mixed numbers and perform six additions.",
 ["mixed_number.hpp"],
 [("mixed_number::fix", "mixed_number.hpp"), ("operator+ overloads", "mixed_number.hpp"), ("as_fraction", "mixed_number.hpp")],
 state=[("whole_, fractional_", "the two parts; invariant: proper, no opposite signs", "mixed_number.hpp")])

prop("C21", "Durations with fractional counts convert and combine exactly",
 "Converting an integer duration to a fractional duration of any period, finer or coarser, or one fractional duration to another, preserves the length exactly; sums, differences, multiples, quotients, remainders and comparisons of fractional durations of any periods are exact, and converting there and back returns an equal duration.",
 ["inputs", "configurations", "programs"], "all in-range counts, all pairs of standard and non-standard periods, all policies tried",
 "Tests convert 1 s to microseconds, 30 min to hours and 62 h to itself.",
 ["chrono.hpp", "fraction.hpp"],
 [("treat_as_floating_point specialisation", "chrono.hpp"), ("to_fractional", "chrono.hpp"), ("duration aliases", "chrono.hpp")])

prop("C22", "Wrapped clocks and fractional time points report the exact underlying time",
 "A wrapped clock's now() is exactly the time point the underlying clock reported at that call, re-expressed in the wrapper's period, for every sequence of clock readings; the wrapper has the same steadiness. Converting a time point to a fractional time point preserves its epoch offset, clock and period exactly, and differences and comparisons of wrapped readings agree with those of the underlying readings.",
 ["histories", "inputs", "configurations"], "all sequences of readings of a controlled clock, all clock and wrapper periods",
 "Tests call the wrapped system clock once and check only types.",
 ["chrono.hpp"],
 [("clock_wrapper::now", "chrono.hpp"), ("to_fractional(time_point)", "chrono.hpp")])

prop("C23", "Conversions between representations and policies preserve the fraction",
 "Constructing a fraction or raw fraction from one with another representation or policy copies numerator and denominator exactly whenever they fit; construction from a whole number gives that number over one, from a numerator and denominator exactly these, from a std::ratio that ratio, and default construction of a fraction zero over one. Conversion between representations is implicit, conversion between policies only explicit; component accessors and their short names refer to the same stored components.",
 ["inputs", "configurations", "programs"], "all component values that fit both sides, all representation and policy pairs, all ratios",
 "Tests convert one value between int and long long and construct one ratio.",
 ["fraction.hpp", "raw_fraction.hpp"],
 [("converting constructors", "fraction.hpp"), ("raw_fraction converting constructor", "raw_fraction.hpp")])

prop("C24", "Constant evaluation and run-time evaluation agree and are free of UB",
 "Every construction, conversion, access, arithmetic operation, comparison, query, reduction, rounding, power, string conversion, mixed-number and float-producing operation is usable in constant expressions for in-range operands, and gives there exactly the result it gives at run time. In particular no in-range evaluation executes undefined behaviour such as overflow, out-of-range shifts or division by zero.",
 ["programs", "inputs"], "all programs evaluating the constexpr API on in-range constants, and all in-range run-time evaluations",
 "Tests declare a dozen constexpr fractions and mixed numbers; nothing looks for undefined behaviour, and literals near the representation limits are absent.",
 ["ops.hpp", "fraction.hpp", "fraction_math.hpp", "raw_fraction_math.hpp", "raw_fraction_queries.hpp", "math_utilities.hpp", "mixed_number.hpp", "floating_point.hpp", "parse_utilities.hpp"],
 [("constexpr on the whole API", "fraction.hpp"), ("digit_sequence_to_int", "parse_utilities.hpp")])

prop("C25", "Every public header works alone, in any order and in many units",
 "Including ieme/ieme.hpp alone is enough to use everything the documentation shows, and any single public header, or any selection of public headers in any order, compiles by itself and lets its own facilities be used. Several translation units that include the headers link into one program without duplicate or missing definitions. The program's own code beside the headers means what it means without them: its names (outside ieme's, and macros starting with IEME_), the layout of its types and its arithmetic are untouched.",
 ["configurations", "programs"], "all subsets and orders of public headers, with use of each included header's facilities, and all code of a program's own beside them",
 "Each test includes a test framework and one or two headers in one order, which hides missing includes; ieme.hpp is included by no test.",
 ["ieme.hpp", "floating_point.hpp", "parse_utilities.hpp", "raw_fraction_math.hpp", "raw_fraction_queries.hpp", "mixed_number.hpp", "chrono.hpp"],
 [("includes of each header", "ieme.hpp")])

prop("C26", "The default policy follows the configuration and never changes values",
 "Defining one of the IEME_DEFAULT_OPS_* macros makes exactly the policy of that name the default of fractions, mixed numbers, durations, literals and conversions; without one the default is the safe policy reducing inputs and outputs. Programs that stay in range compute the same values, comparisons and rounded integers under every setting.",
 ["configurations", "programs"], "all default-policy settings and all in-range programs",
 "The tests are compiled in one configuration only.",
 ["ops.hpp"],
 [("IEME_DEFAULT_OPS_* selection of ops::defaults", "ops.hpp")])

prop("C27", "Fractions of different policies never mix implicitly",
 "For every pair of distinct policies, and every pair of representations, each arithmetic, compound-assignment and comparison operator between two fractions is rejected by overload resolution (so that it is also unavailable to a requires-expression), and implicit conversion, assignment and argument passing between them, or from one to a mixed number of the other policy, is impossible, although explicit conversion works. For equal policies all these operators, also with a whole number as one operand, are accepted and give a fraction of the operands' common representation and that policy (compound assignment: a reference to the left operand; comparisons: bool), and conversion between representations is implicit.",
 ["configurations", "programs"], "all ordered pairs of policies and representations and all sixteen binary operators",
 "No test looks at rejected expressions or at result types.",
 ["fraction.hpp"],
 [("deleted operator overloads", "fraction.hpp"), ("explicit converting constructor", "fraction.hpp")])

prop("C28", "Operations are independent of each other in any interleaving",
 "Every operation of the library gives the same result whatever other operations ran before it or run at the same time in other threads: any number of threads may read the same fractions, raw fractions, mixed numbers and durations and use objects of their own without a data race, and each obtains exactly the results it would obtain alone; operands passed as constants are never modified.",
 ["schedules", "histories"], "all interleavings of operations (arithmetic, comparisons, updates, rounding, queries, conversions, text, hashing, durations, wrapped clocks) in several threads that share only operands they read",
 "No test starts a thread or repeats an operation after others.",
 ["ops.hpp", "fraction.hpp", "raw_fraction.hpp", "fraction_math.hpp", "raw_fraction_math.hpp", "floating_point.hpp", "parse_utilities.hpp", "mixed_number.hpp", "hash.hpp", "chrono.hpp", "limits.hpp"],
 [("absence of state outside the operands", "fraction.hpp"), ("function-local constants", "floating_point.hpp"), ("hash, clock_wrapper::now, operator<< and >>", "hash.hpp")])

prop("C29", "The installed package and the subproject both give a working library",
 "In every configuration of installing the library (any prefix, staged or moved afterwards, any destination directories) and of adding it as a subproject at any depth, a CMake project that links Ieme::Ieme, directly or through libraries of its own, configures, compiles with the language standard the library needs whatever standard it asks for itself, links and computes correct results; everything the headers need is installed with them. find_package accepts a version request exactly when it has the same major version and is not newer than the package, and a subproject does not add the library's tests to its parent.",
 ["configurations", "programs"], "all installation and usage configurations (prefixes, staging, relocation, version requests, language standards, library shapes, generators, compilers)",
 "The tests are built inside the source tree; nothing installs the library or uses it from another project.",
 ["/src/ieme/CMakeLists.txt", "/CMakeLists.txt", "/cmake/IemeConfig.cmake.in"],
 [("install rules, package files, interface target", "/src/ieme/CMakeLists.txt"), ("IEME_BUILD_TESTS default", "/CMakeLists.txt")])

prop("C30", "Values are plain data and operations allocate and throw nothing",
 "Fractions, raw fractions, mixed numbers, and durations and time points with fractional counts are trivially copyable standard-layout values no larger than their components (fractions have nothing but numerator and denominator, so copying the bytes copies the value and identical components mean identical bytes). No operation of the library apart from stream input and output allocates memory, whatever its operands (undefined ones and long strings included), and none lets an exception escape apart from an invalid _dec literal: every operation on fractions and mixed numbers, their conversions, limits, hashes (those of raw fractions too), the _fr literals and wrapped clocks is declared noexcept.",
 ["inputs", "configurations"], "all operands (undefined ones included), strings of any length, all policies and representations, all operations",
 "No test looks at allocation, at exception specifications or at the layout of the types; a dependence of an allocation on the operands (such as the length of a string) shows only for operands no test uses.",
 ["fraction.hpp", "raw_fraction.hpp", "mixed_number.hpp", "chrono.hpp", "parse_utilities.hpp", "floating_point.hpp", "hash.hpp", "fraction_math.hpp", "limits.hpp"],
 [("components as the only members", "raw_fraction.hpp"), ("string_view based scanning", "parse_utilities.hpp"), ("noexcept declarations", "fraction.hpp")])

prop("C31", "A policy written by the user decides its fractions' operations",
 "The policy parameter of a fraction may be any class with the static functions of ops::safe. Every operator of such fractions (+, -, *, /, %, unary minus, the compound assignments, the six comparisons; fraction with fraction, fraction with whole number and whole number with fraction; equal and different representations) gives what that policy gives for the operands converted to the common representation (a compound assignment: to the left one), never what a built-in policy would give. Around such a class, reduced_input hands it only fractions in lowest terms (with non-negative denominator in the sign-normalising mode) and returns its answer, reduced_output returns its answer in lowest terms and leaves comparisons to it, and the two can be stacked. The rest of the library (reduction, rounding, redenomination, queries, powers, conversions, parsing, hashes, limits, output, mixed numbers, durations) accepts fractions of such a policy and gives the same values as with the default policy if the policy's arithmetic is exact.",
 ["inputs", "configurations"], "user policies that are not rational arithmetic (modulo a prime), that expand their results or reverse the order, or are exact; bare and inside reduced_input/reduced_output in all modes; all operators, forms and representation pairs",
 "The tests use only the built-in policies, all of which give equal values, so an operator that bypasses the policy it was given passes them.",
 ["fraction.hpp", "ops.hpp", "mixed_number.hpp", "chrono.hpp", "fraction_math.hpp"],
 [("Ops::function dispatch", "fraction.hpp"), ("reduced_input, reduced_output", "ops.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
