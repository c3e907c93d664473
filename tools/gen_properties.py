#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property, regenerated by hand with this script)."""
import json, os
ALLW = "for the 256, 384, 512 and 1024-bit types, with 64-bit and 32-bit limbs, with and without overflow checks"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("P01", "Wrapping add, subtract, multiply and negate are exact modulo 2^width",
  "For every pair of values of every integer type, the wrapping addition, subtraction, multiplication and negation (and the wrapping mixed signed/unsigned additions and subtractions) return exactly the mathematical result reduced modulo two to the type's width, read as two's complement for signed types. This holds for every carry, borrow or partial-product pattern between limbs.",
  ["inputs", "configurations"], "every operand pair of each type, " + ALLW,
  "The unit tests compare a handful of constants and small randomised values; a carry lost only when a middle limb is all ones and a carry comes in is never reached by them, and the space is 2^512 pairs.",
  ["src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/uint/wrapping.rs", "src/int/wrapping.rs"],
  [("carry/borrow chain over limbs", "src/math/add.rs, src/math/sub.rs"), ("row-by-row schoolbook product", "src/math/mul.rs"), ("two's complement negation", "src/int/wrapping.rs, src/uint/wrapping.rs")],
  ["wrapping_* methods of the public integer types"])
p("P02", "Overflow is reported exactly when the true result does not fit",
  "For every operand pair the overflowing, checked, saturating and strict forms of addition, subtraction, multiplication, negation, absolute value and the mixed signed/unsigned additions and subtractions agree on one fact: whether the mathematical result fits the type. When it fits they all return it; when it does not, they respectively return the wrapped value with the flag set, nothing, the bound nearest to the true result, or panic.",
  ["inputs", "configurations"], "every operand pair of each type, " + ALLW,
  "Whether a signed product overflows depends on both signs and on one specific magnitude out of 2^255; the tests touch only a few points, none of them next to the boundary for general operands.",
  ["src/math/mul.rs", "src/math/add.rs", "src/math/sub.rs", "src/shared/checked.rs", "src/shared/saturating.rs", "src/shared/strict.rs", "src/int/overflowing.rs", "src/uint/overflowing.rs"],
  [("carry-out / sign-change overflow detection", "src/math/add.rs, src/math/sub.rs"), ("high-half detection and sign fix-up in signed product", "src/math/mul.rs"), ("families derived from the overflowing form", "src/shared/checked.rs, src/int/saturating.rs, src/uint/saturating.rs, src/shared/strict.rs")],
  ["overflowing_*, checked_*, saturating_*, strict_* methods"])
p("P03", "Operators panic exactly on overflow when checks are on and wrap when off",
  "Built with overflow checks, the operators +, -, *, unary -, /, % and the plainly named methods panic exactly when the mathematical result does not fit, and otherwise return it; built without overflow checks they return the wrapped result instead. By-value, by-reference and assignment forms of an operator behave identically.",
  ["inputs", "configurations"], "every operand pair, both build modes, every operator form, all widths",
  "The test suite is compiled in one overflow-check mode only and never evaluates an operator on an overflowing pair, so neither half of the guarantee is exercised.",
  ["src/shared/ops.rs", "src/shared/traits.rs", "src/int/traits.rs", "src/int/ops.rs", "src/uint/ops.rs", "build.rs"],
  [("build-script probe of the overflow-check mode", "build.rs"), ("panic-or-wrap selection in operator impls", "src/shared/ops.rs, src/int/traits.rs"), ("reference/assign forwarding", "src/shared/traits.rs")],
  ["core::ops impls of the public integer types"])
p("P04", "Unsigned division returns the unique quotient and remainder",
  "For every unsigned dividend and non-zero divisor, all division and remainder operations (combined, separate, Euclidean, floor; ceiling rounds up) return the unique quotient and remainder with dividend = quotient x divisor + remainder and remainder < divisor. They never panic or fail to terminate for a non-zero divisor.",
  ["inputs", "configurations"], "every dividend and non-zero divisor, every relative limb length, with the assembly and the portable division step, " + ALLW,
  "The rare quotient-correction branches are taken with probability about 2^-63 per digit for random operands, so neither fixed vectors nor random testing reach them.",
  ["src/math/div.rs", "src/math/bigint.rs", "src/uint/wrapping.rs", "src/uint/ops.rs", "src/shared/ops.rs"],
  [("normalised long division with quotient estimate, correction and add-back", "src/math/div.rs"), ("single-limb and half-width fast paths", "src/math/div.rs"), ("hardware 128/64 division step", "src/math/div.rs")],
  ["div/rem family of the unsigned types"])
p("P05", "Signed division follows the documented rounding for every sign combination",
  "For every signed dividend and non-zero divisor whose quotient fits, truncating division rounds towards zero with the remainder taking the dividend's sign, Euclidean division leaves a remainder in [0, |divisor|), floor division rounds down and ceiling division rounds up. The single unrepresentable case, the minimum divided by minus one, is reported by each form in its documented way (flag and wrapped value, nothing, saturation to the maximum, or panic).",
  ["inputs", "configurations"], "every dividend and non-zero divisor and sign combination, " + ALLW,
  "The tests use positive or tiny operands; sign handling of the remainder and the minimum value as divisor or dividend are single points in a 2^512 space.",
  ["src/int/wrapping.rs", "src/int/overflowing.rs", "src/int/ops.rs", "src/int/checked.rs", "src/int/saturating.rs", "src/int/strict.rs", "src/math/div.rs"],
  [("sign split around the unsigned division", "src/int/wrapping.rs"), ("Euclidean/floor/ceil adjustment", "src/int/ops.rs, src/int/wrapping.rs, src/int/overflowing.rs"), ("min / -1 tests", "src/int/overflowing.rs, src/int/checked.rs")],
  ["div/rem family of the signed types"])
p("P06", "Division by zero never yields a value, hangs or kills the process",
  "For every dividend, including zero, each checked division or remainder by zero returns nothing, and every other division or remainder by zero raises an ordinary, catchable panic. This holds for full-width and for every scalar divisor type, in every build mode.",
  ["inputs", "configurations"], "every dividend with a zero divisor through every division entry point, all widths, limb sizes, build modes, assembly on and off",
  "The tests never divide by zero; the fast paths for small or zero dividends and the hardware division instruction behave differently for a zero divisor depending on the dividend and the build.",
  ["src/math/div.rs", "src/shared/ops.rs", "src/shared/limb.rs", "src/int/limb.rs", "src/uint/limb.rs", "src/shared/checked.rs"],
  [("zero test before dividing", "src/math/div.rs, src/shared/checked.rs"), ("language-level division by zero panic in the scalar step", "src/math/div.rs")],
  ["every div/rem method and operator"])
p("P07", "Shifts are exact for every amount, shift family and amount type",
  "Shifting left multiplies by a power of two modulo the width, shifting right divides rounding down (zero filling for unsigned, sign filling for signed), for every in-range amount. For an out-of-range amount, the wrapping form reduces the amount modulo the width, the overflowing form also sets its flag, the checked form returns nothing, the strict form panics, the unbounded form shifts all bits out, and the operators panic with overflow checks and otherwise wrap. All integer types usable as a shift amount agree.",
  ["inputs", "configurations"], "every value, every shift amount of every supported amount type (including negative and huge ones), " + ALLW,
  "Limb-crossing shifts have a separate code path for each limb offset, a bit offset of zero and every width; tests try a few amounts on a few values and only some amount types.",
  ["src/math/shift.rs", "src/shared/shift.rs", "src/shared/ops.rs", "src/shared/unbounded.rs", "src/shared/checked.rs", "src/shared/overflowing.rs", "src/shared/strict.rs"],
  [("limb plus bit offset shifting", "src/math/shift.rs"), ("amount range tests", "src/shared/shift.rs, src/shared/ops.rs, src/shared/unbounded.rs")],
  ["shl/shr operators and *_shl/*_shr methods"])
p("P08", "Rotation, byte swap and bit reversal are exact bit permutations",
  "Rotating left or right by n moves bit i to position i plus or minus n modulo the width, for every n; swapping bytes and reversing bits map byte or bit i to its mirror position. No bit is lost, duplicated or altered.",
  ["inputs", "configurations"], "every value and every rotation amount, " + ALLW,
  "A misplaced limb or bit at one particular rotation amount is visible only for that amount and for values that have the bit set; tests rotate a few values by a few amounts.",
  ["src/math/rotate.rs", "src/shared/endian.rs", "src/uint/bitops.rs", "src/int/bitops.rs"],
  [("limb rotation plus funnel shift", "src/math/rotate.rs"), ("per-limb reversal and limb order reversal", "src/shared/endian.rs")],
  ["rotate_left, rotate_right, swap_bytes, reverse_bits"])
p("P09", "Bitwise logic and bit counting act on every bit of the value",
  "And, or, xor and not combine every bit position independently, in all operator, reference, assignment and constant-function forms. Population counts, leading and trailing counts, parity and sign tests and limb accessors describe exactly the value's two's complement bit pattern. The constants of each type (least, greatest and default value, width, signedness) are those of a two's complement or unsigned integer of that width.",
  ["inputs", "configurations"], "every value or pair, " + ALLW,
  "Counts that run through several limbs stop at the first interesting limb; errors show only for values with a particular limb all zero or all one, which tests do not enumerate.",
  ["src/shared/bitops.rs", "src/int/bitops.rs", "src/uint/bitops.rs", "src/shared/extensions.rs"],
  [("per-limb loops with early exit", "src/shared/bitops.rs"), ("limb and wide accessors", "src/shared/extensions.rs")],
  ["bit operators, count_*, leading_*, trailing_*, is_even, is_odd, get_limb, get_wide"])
p("P10", "Comparison is the numeric total order, consistent with equality and hashing",
  "For every pair of values of a type, all comparison operators, ordering methods, minimum, maximum and clamping and the constant-function comparisons agree with the numeric order of the values they represent, signed types ordering negatives below non-negatives. Equality holds exactly for identical values, and equal values hash equally.",
  ["inputs", "configurations"], "every pair of values, " + ALLW,
  "A comparison that looks at a limb in the wrong order or treats the sign limb wrongly is wrong only for pairs whose limbs disagree in opposite directions; tests compare a few neighbouring values.",
  ["src/shared/ord.rs", "src/int/mod.rs", "src/uint/mod.rs"],
  [("most-significant-first limb comparison", "src/shared/ord.rs"), ("derived equality and hash over limbs", "src/int/mod.rs, src/uint/mod.rs")],
  ["Ord, PartialOrd, Eq, Hash, *_const comparison methods"])
p("P11", "Conversions preserve the value, or truncate as primitive casts do",
  "Converting a primitive integer, boolean or character into any of the types yields the same number (sign-extended two's complement when a negative value is cast to an unsigned type), and casting back to any narrower primitive keeps exactly the low bits, as the language's casts do. Casts between signed and unsigned types of the same width reinterpret the bits, and the fallible conversions succeed exactly when the value is representable.",
  ["inputs", "configurations"], "every source value of every convertible type, " + ALLW,
  "Sign extension has to reach every upper limb for each of ten source types, two limb sizes and four widths; tests check a few positive values of the default width.",
  ["src/shared/casts.rs", "src/int/casts.rs", "src/uint/casts.rs", "src/shared/traits.rs", "src/int/traits.rs", "src/uint/traits.rs", "src/util.rs"],
  [("limb assembly with sign fill", "src/shared/casts.rs, src/util.rs"), ("range tests in fallible conversions", "src/int/traits.rs, src/uint/traits.rs, src/shared/traits.rs")],
  ["from_*, as_*, From, TryFrom"])
p("P12", "Byte, word and limb serialisation is lossless and in the stated order",
  "For every value, the big, little and native endian byte arrays, 32-bit and 64-bit word arrays, limb arrays and wide-limb arrays list the value's two's complement digits in exactly the stated order, and building a value from such an array inverts it. Every array of the right length is accepted and denotes exactly one value.",
  ["inputs", "configurations"], "every value and every array, " + ALLW + "; byte order of the target is covered by the configuration property",
  "A swapped pair of words or bytes is only visible if these positions differ; tests round-trip a few values, which cannot notice an order error that both directions share.",
  ["src/shared/endian.rs", "src/util.rs"],
  [("order-preserving copies and reversals", "src/shared/endian.rs")],
  ["to_*_bytes/limbs/wide/u32/u64 and from_*"])
p("P13", "Parsing accepts exactly the in-range numerals and returns their value",
  "For every radix from 2 to 36 and every string, parsing succeeds exactly when the string is an optional sign followed by at least one digit of that radix denoting a representable value, and then returns that value; everything else, including out-of-range magnitudes by as little as one, is rejected with an error and never panics. Decimal parsing through the standard parsing trait accepts the same strings with the same values as radix 10. A rejected string's error names its cause: nothing to parse, a bad character, or a value too large or too small (where a string has two faults, or a sign an unsigned type cannot have, the choice is free). A radix outside 2 to 36 panics.",
  ["inputs"], "every string and every radix, all widths and limb sizes",
  "The numeral that is one above the maximum, leading zeros beyond the usual length, and a bad character at one particular position each select different code (short, chunked and digit-wise paths); tests parse a few well-formed decimals.",
  ["src/parse.rs", "src/int/traits.rs", "src/uint/traits.rs", "src/error.rs"],
  [("chunked digit accumulation with overflow detection", "src/parse.rs"), ("short-string fast path", "src/uint/traits.rs, src/int/traits.rs")],
  ["from_str_radix, FromStr"])
p("P14", "Formatting prints the exact value and parsing it back restores it",
  "For every value, decimal, hexadecimal, octal and binary formatting and conversion to any radix print exactly the canonical numeral of the value (two's complement bits for the non-decimal formats of negative values, as for primitive integers), with the requested sign, prefix, width, fill and alignment applied as for primitive integers. Scientific notation denotes the same value, and parsing the printed numeral in the same radix returns the original.",
  ["inputs"], "every value, every radix 2..36, every combination of sign, prefix and padding flags over a set of widths, all integer widths and limb sizes",
  "Zero digits inside the number, at chunk boundaries, must be printed; which values have them depends on all bits, and tests print only a few constants without flags.",
  ["src/write.rs", "src/int/traits.rs", "src/uint/traits.rs"],
  [("digit generation by repeated division", "src/write.rs, src/uint/traits.rs"), ("per-limb hex/octal/binary output with inner zero padding", "src/uint/traits.rs"), ("sign split", "src/int/traits.rs")],
  ["Display, Debug, LowerHex, UpperHex, Octal, Binary, LowerExp, UpperExp, to_str_radix"])
p("P15", "Native-width scalar operations equal the full-width operation",
  "For every value and every limb-sized or double-limb-sized scalar, signed or unsigned, adding, subtracting, multiplying, dividing by or taking the remainder with that scalar gives in each form (plain, wrapping, overflowing, checked) exactly the mathematical result under that form's overflow rule, as if the scalar had first been widened. Dividing a signed value by an unsigned scalar leaves the non-negative remainder, with the quotient rounded down accordingly.",
  ["inputs", "configurations"], "every value and scalar (signed and unsigned limb and double limb), " + ALLW,
  "Each scalar width, sign and operation is a separately written fast path; carries that have to run through every upper limb, or sign changes, only happen for particular limb patterns.",
  ["src/shared/limb.rs", "src/int/limb.rs", "src/uint/limb.rs", "src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/div.rs"],
  [("short-operand carry chains", "src/math/add.rs, src/math/sub.rs"), ("short-operand products", "src/math/mul.rs"), ("single and double limb division", "src/math/div.rs")],
  ["*_ulimb, *_uwide, *_ilimb, *_iwide methods"])
p("P16", "Fixed-width scalar operations behave identically whatever the limb size",
  "For every value and every 32, 64 or 128-bit scalar, signed or unsigned, adding, subtracting, multiplying, dividing by or taking the remainder with that scalar gives in each form (plain, wrapping, overflowing, checked) exactly the mathematical result under that form's overflow rule, independently of the limb size the crate was built with.",
  ["inputs", "configurations"], "every value and scalar (u32, u64, u128, i32, i64, i128), both limb sizes, both overflow-check modes, all widths",
  "The suite is built for one limb size only, so the code that splits a wider scalar over several limbs is never executed at all.",
  ["src/shared/limb.rs", "src/int/limb.rs", "src/uint/limb.rs", "src/util.rs", "src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/div.rs"],
  [("scalar-to-limb splitting", "src/util.rs"), ("dispatch on scalar width against limb width", "src/uint/limb.rs, src/int/limb.rs")],
  ["*_u32, *_u64, *_u128, *_i32, *_i64, *_i128 methods"])
p("P17", "Powers and logarithms are exact, including at the overflow boundary",
  "For every base and exponent, raising to a power yields the mathematical power under each form's overflow rule (wrapped, flagged, absent, saturated or panicking), and for every positive value and base of at least two the integer logarithm is the largest k with base^k not above the value. Logarithms of non-positive values or with a base below two are reported as absent or by panicking, and every call terminates.",
  ["inputs", "configurations"], "every base, exponent and value, all widths, limb sizes and build modes",
  "Only exponents near the overflow boundary of a given base and values next to an exact power distinguish a correct from an off-by-one implementation; tests use a few small cases.",
  ["src/shared/overflowing.rs", "src/shared/wrapping.rs", "src/shared/ops.rs", "src/int/saturating.rs", "src/uint/saturating.rs", "src/int/checked.rs", "src/uint/checked.rs", "src/int/ops.rs", "src/uint/ops.rs"],
  [("square-and-multiply with accumulated overflow flag", "src/shared/overflowing.rs, src/shared/wrapping.rs"), ("logarithm by repeated division / bit length", "src/int/checked.rs, src/uint/checked.rs")],
  ["pow family, ilog, ilog2, checked_ilog, checked_ilog2"])
p("P18", "Carry-chained and widening primitives give exact multi-word arithmetic",
  "Adding or subtracting with an incoming carry or borrow returns the wrapped sum or difference together with the exact outgoing carry (unsigned) or overflow (signed), so that chaining the calls over any number of words equals arithmetic on the concatenated number. The widening and carrying products return the exact double-width result as low and high words, and the high-half product returns exactly the upper half.",
  ["inputs", "histories"], "every operand pair with both carry-ins, every chain of up to several words, all widths and limb sizes",
  "A carry that is lost only when both the sum and the carry-in overflow, or set twice, needs a specific pair; chains longer than one call are not tested at all.",
  ["src/shared/bigint.rs", "src/uint/ops.rs", "src/math/mul.rs", "src/math/add.rs", "src/math/sub.rs"],
  [("two-step carry with flag combination", "src/shared/bigint.rs"), ("full product without truncation", "src/math/mul.rs")],
  ["carrying_add, borrowing_sub, widening_mul, carrying_mul, high_mul, low, high"])
p("P19", "Derived helpers (distance, midpoint, multiples, powers of two, sign) are exact",
  "For every operand, absolute difference, unsigned absolute value, sign, midpoint, signed difference, next multiple, multiple test, next power of two and power-of-two test return the mathematically defined result even where intermediate values would not fit, under each form's overflow rule (panic, nothing or wrapped) where the result itself does not fit.",
  ["inputs", "configurations"], "every operand pair, all widths, limb sizes and build modes",
  "These helpers fail precisely where an intermediate sum or product overflows while the result does not, for instance at the two ends of the range; tests stay far away from there.",
  ["src/int/ops.rs", "src/uint/ops.rs", "src/int/checked.rs", "src/uint/checked.rs", "src/int/wrapping.rs", "src/uint/wrapping.rs", "src/uint/extensions.rs"],
  [("intermediate-overflow avoidance", "src/int/ops.rs, src/uint/ops.rs"), ("bit-length based power of two", "src/uint/ops.rs, src/uint/checked.rs")],
  ["abs_diff, unsigned_abs, signum, midpoint, next_multiple_of, is_multiple_of, next_power_of_two, checked_signed_diff"])
p("P20", "The numeric-trait implementations agree with the types' own operations",
  "For every operand, each operation reached through the optional numeric traits (arithmetic families, Euclidean division, shifts, powers, bounds, identities, bit counts, byte conversion, parsing, sign, casts) has exactly the result, absence or panic that the mathematical definition of that trait operation prescribes. Fallible conversions to and from primitive types succeed exactly when the value is representable.",
  ["inputs", "configurations"], "every operand and every implemented integer operation of the numeric traits, all widths and limb sizes",
  "The trait implementations are not compiled in the default test build, and range decisions in the conversions have a boundary for each of twelve primitive types.",
  ["src/shared/num_traits_impls.rs", "src/int/traits.rs", "src/uint/traits.rs"],
  [("forwarding implementations", "src/shared/num_traits_impls.rs"), ("range tests for primitive conversions", "src/int/traits.rs, src/uint/traits.rs")],
  ["num_traits traits implemented for the integer types"])
p("P21", "Any sequence of operations keeps the mathematical value it denotes",
  "Starting from any small set of values, after any finite sequence of arithmetic, bitwise, shift, cast, serialise-and-rebuild and print-and-parse steps mixing values of the type, the resulting value and every intermediate report equals what the same sequence yields on mathematical integers reduced to the type's width. No operation leaves a value that later operations treat differently from an equal value built directly.",
  ["histories", "inputs"], "every operation sequence up to the stated depth from the stated seed values, all widths and limb sizes",
  "Unit tests call one operation on fresh constants; values produced by chains of operations, which have limb patterns nobody wrote down, are never fed back.",
  ["src/lib.rs", "src/shared", "src/int", "src/uint", "src/math"],
  [("canonical fixed-size limb representation", "src/int/mod.rs, src/uint/mod.rs"), ("all operations as pure functions on it", "src/math")],
  ["public methods composed into programs"])
p("P22", "Results do not depend on endianness, limb size, word size or assembly",
  "The same program text computing with these types produces the same observable results on little and big endian targets, on 32-bit and 64-bit targets, with 32-bit or 64-bit limbs, and with or without inline assembly. Evaluating at compile time gives the same result as at run time.",
  ["configurations", "inputs"], "every supported build configuration and every operand of the enumerated spaces",
  "The test suite runs on one little endian 64-bit host with default features; all the other index-order and splitting code is never executed.",
  ["src/util.rs", "src/types.rs", "src/shared/endian.rs", "src/math", "src/shared/casts.rs"],
  [("endian-aware limb indexing", "src/util.rs"), ("limb-size selection", "src/types.rs")],
  ["public API under different targets and features"])
p("P23", "Operations with caller preconditions are exact and defined within them",
  "The unchecked addition, subtraction, multiplication, negation and shifts return the exact mathematical result for every operand pair that satisfies their documented precondition. Reading a limb or double limb at an index that does not exist panics. No operation of the crate executes undefined behaviour on any input that satisfies its documented preconditions.",
  ["inputs", "configurations"], "every operand pair within the preconditions; all widths and limb sizes; undefined-behaviour detection on the enumerated smaller space",
  "Undefined behaviour such as an out-of-bounds or misaligned access usually produces the right answer in an ordinary test run; the tests do not run under an undefined-behaviour detector.",
  ["src/shared/unchecked.rs", "src/int/unchecked.rs", "src/write.rs", "src/shared/endian.rs", "src/math/div.rs", "src/shared/bitops.rs"],
  [("unreachable-on-overflow hints", "src/shared/unchecked.rs, src/int/unchecked.rs"), ("transmutes and unchecked indexing", "src/shared/endian.rs, src/write.rs")],
  ["unchecked_* methods; whole API under an undefined-behaviour detector"])
p("P24", "The limb-array routines are exact for every limb count",
  "Taken as numbers with the least significant limb first in native order, arrays of 32-bit and of 64-bit limbs are added, subtracted, multiplied, shifted, rotated and divided exactly, whatever the number of limbs (two or more for everything but division) and independent of the limb size the crate is built with. This covers the unsigned and the signed routines, the forms taking a single limb or double limb as second operand, the wrapping and the overflow-reporting form of each, and the widening product.",
  ["inputs", "configurations"], "every operand of the enumerated spaces for two to five limbs (one to five for division), both limb sizes, all build modes",
  "The tests of the crate use these routines with the limb count and limb size of the default integer types and mostly small values; odd counts, the signed forms and the other limb size are hardly executed.",
  ["src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/shift.rs", "src/math/rotate.rs", "src/math/div.rs"],
  [("carry and borrow chains", "src/math/add.rs, src/math/sub.rs"), ("row products", "src/math/mul.rs"), ("multi-limb division", "src/math/div.rs")],
  ["i256::math::{add, sub, mul, shift, rotate, div}"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
