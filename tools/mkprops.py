#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Addition and subtraction are exact at every length",
  "For all unsigned or signed big integers a and b, a+b and a-b (by value, by reference or as an assignment, in any combination) are exactly the mathematical sum and difference, whatever their lengths, carry or borrow patterns and signs. An unsigned subtraction whose exact result is negative panics instead of returning any value.",
  ["inputs", "histories", "configurations"], "all pairs of integers, every operand form, every word size, buffers with any spare capacity",
  "Tests sample a few dozen pairs; a lost carry, a wrong borrow at a length boundary or a form-specific slip is visible only for particular digit patterns, lengths or spare capacities.",
  ["src/add.rs", "src/add_ops.rs", "src/arch/generic/add.rs", "src/arch/x86/add.rs", "src/arch/x86_64/add.rs", "src/buffer.rs"],
  [("word-wise carry/borrow propagation", "src/add.rs"), ("operand-form dispatch and buffer reuse", "src/add_ops.rs")],
  ["return value / panic of + - += -= on UBig and IBig"])

p("C02", "Multiplication is exact in every size regime",
  "For all big integers a and b of any two lengths, a*b is exactly the mathematical product with the product's sign, for every operand form. This holds equally for short, balanced long and very unbalanced long operands, and when both operands are the same object.",
  ["inputs", "histories", "configurations"], "all pairs of integers of all length combinations (single word, tens, hundreds and thousands of words, balanced and unbalanced), every word size",
  "Tests multiply a handful of sizes; each algorithm has carry and sign corner cases reached only by special digit patterns at special length ratios, and scratch space estimates that matter only at particular lengths.",
  ["src/mul/mod.rs", "src/mul/simple.rs", "src/mul/karatsuba.rs", "src/mul/toom_3.rs", "src/mul/helpers.rs", "src/mul_ops.rs", "src/memory.rs"],
  [("schoolbook with chunking", "src/mul/simple.rs"), ("Karatsuba", "src/mul/karatsuba.rs"), ("Toom-3 interpolation and carries", "src/mul/toom_3.rs"), ("splitting unbalanced factors", "src/mul/helpers.rs")],
  ["return value of * and *= on UBig and IBig"])

p("C03", "Division returns the one correct quotient and remainder",
  "For every dividend a and non-zero divisor b: /, % and the combined form truncate toward zero (a = q*b + r, |r| < |b|, r zero or of a's sign), and the Euclidean forms satisfy a = q*b + r with 0 <= r < |b|; every operand form agrees. Dividing by zero panics in every one of these operations.",
  ["inputs", "histories", "configurations"], "all dividends and divisors of all length combinations and signs, every operand form and word size",
  "Quotient-digit estimation errs only for rare digit patterns (about 1 in 2^word random operands needs the final correction), and the recursive regime starts only at dozens of words; the tests sample neither systematically.",
  ["src/div/mod.rs", "src/div/simple.rs", "src/div/divide_conquer.rs", "src/fast_divide.rs", "src/div_ops.rs"],
  [("normalised quotient digit estimation and add-back", "src/div/simple.rs"), ("recursive division", "src/div/divide_conquer.rs"), ("reciprocal based word division", "src/fast_divide.rs"), ("sign conventions", "src/div_ops.rs")],
  ["return values / panic of /, %, div_rem, div_euclid, rem_euclid, div_rem_euclid"])

p("C04", "Integer powers are exact",
  "x.pow(n) equals x multiplied by itself n times for every big integer x and exponent n, with x.pow(0) = 1 (also for x = 0) and the sign alternating with n for negative x.",
  ["inputs", "configurations"], "all bases and all exponents whose result is representable",
  "Tests check a few bases and exponents; shortcuts for particular bases or exponents and long repeated squaring chains are not sampled.",
  ["src/pow.rs", "src/mul_ops.rs"], [("binary exponentiation", "src/pow.rs")], ["return value of pow"])

p("C05", "Shifts multiply or floor-divide by powers of two",
  "x << n equals x*2^n and x >> n equals floor(x / 2^n) (so negative values round toward minus infinity) for every big integer x and every shift count n, including counts beyond the bit length, and every operand form.",
  ["inputs", "histories", "configurations"], "all values and shift counts, every word size, by value, by reference and assigning forms",
  "The result depends on the count modulo the word size, on whether a carry word appears, on bits shifted out of a negative value and on spare capacity; tests try a few combinations.",
  ["src/shift.rs", "src/shift_ops.rs", "src/buffer.rs"], [("word and bit shifting", "src/shift_ops.rs"), ("in-place bit shifting", "src/shift.rs")], ["return value of << >> <<= >>="])

p("C06", "Bitwise operators follow infinite two's complement",
  "&, |, ^, and-not and ! on big integers give, at every bit position, the Boolean function of the operands' bits, where a negative integer is its infinite two's complement representation and an unsigned one is zero-extended. All operand forms, and mixed forms with primitive integers, agree.",
  ["inputs", "histories", "configurations"], "all pairs of values and signs of all length combinations, every operand form and word size",
  "Negative operands are handled by sign-specific identities whose borrow and carry chains differ by case; tests enumerate small values and a few large ones.",
  ["src/bits.rs"], [("sign case analysis", "src/bits.rs"), ("length-mismatch handling", "src/bits.rs")], ["return value of & | ^ and_not ! and assigning forms"])

p("C07", "Bit-level queries and updates are exact",
  "Reading, setting and clearing bit n, bit length, trailing zeros, the power-of-two test and rounding up to the next power of two agree with the binary expansion of the value for every value and every bit index, and setting or clearing a bit changes no other bit. Trailing zeros of zero is reported as absent.",
  ["inputs", "histories", "configurations"], "all values and bit indices (inside, at and beyond the current length), every word size, after any history of updates",
  "Index/word boundary combinations and growth or shrinkage of the representation are sampled sparsely by the tests.",
  ["src/bits.rs", "src/buffer.rs"], [("per-word bit addressing", "src/bits.rs"), ("growth and normalisation", "src/buffer.rs")], ["bit, set_bit, clear_bit, bit_len, trailing_zeros, is_power_of_two, next_power_of_two"])

p("C08", "Comparison, equality and hashing depend only on the value",
  "For any two big integers, however they were produced, the ordering is the numeric ordering, they are equal exactly when their values are equal, and equal values hash equally. Copies, in-place overwritten copies and values that shrank from longer ones are indistinguishable from freshly created ones.",
  ["inputs", "histories", "configurations"], "all pairs of values and all operation histories leading to them",
  "Tests compare freshly built values; a non-canonical representation left behind by one operation shows up only when that result is later compared or hashed.",
  ["src/cmp.rs", "src/ubig.rs", "src/ibig.rs", "src/buffer.rs"], [("canonical representation", "src/ubig.rs"), ("sign-aware ordering", "src/cmp.rs")], ["cmp, ==, Hash, clone, clone_from"])

p("C09", "Sign operations and generic numeric traits agree with values",
  "Negation, absolute value (signed and unsigned), signum, and every numeric-trait method implemented for the types (zero, one, is_zero, is_one, pow, signed and radix-parsing traits) return what their mathematical or trait contract says for every value. Zero never carries a sign.",
  ["inputs", "histories"], "all values",
  "Trait forwarding is untested in the repository except for a few methods, and sign handling of zero depends on which operation produced it.",
  ["src/sign.rs", "src/num_traits.rs", "src/ibig.rs"], [("sign normalisation", "src/ibig.rs"), ("trait forwarding", "src/num_traits.rs")], ["-x, abs, unsigned_abs, signum, num_traits methods"])

p("C10", "Parsing accepts exactly the grammar and yields the exact value",
  "Parsing a string in any radix 2..36, in default decimal, or with an automatic radix prefix returns exactly the integer the digits denote when the string is an optional sign (plus only, for unsigned) followed by at least one digit of the radix and nothing else, and otherwise returns the documented error. It never panics on any input string and a radix outside 2..36 panics.",
  ["inputs", "configurations"], "all strings of any length and all radices",
  "Tests parse tens of strings; digit grouping, chunk boundaries, leading zeros, signs and prefixes interact, and long strings use a different path from short ones.",
  ["src/parse/mod.rs", "src/parse/power_two.rs", "src/parse/non_power_two.rs", "src/radix.rs"], [("grammar", "src/parse/mod.rs"), ("power of two radices", "src/parse/power_two.rs"), ("divide and conquer for other radices", "src/parse/non_power_two.rs")], ["from_str, from_str_radix, from_str_with_radix_prefix"])

p("C11", "Formatting prints the exact digits with the requested layout",
  "Formatting any value in any radix 2..36 or with the decimal, binary, octal and hexadecimal formatters prints the canonical digits (lower or upper case) of the exact value, and sign, '+', '#' prefix, width, fill, alignment and zero-padding behave as for primitive integers. Parsing the printed text gives back the value.",
  ["inputs", "configurations"], "all values of all lengths, all radices, all formatter flags and widths",
  "Tests print a few values; interior zero groups, chunk boundaries at particular lengths, and flag combinations for negative or zero values are rarely sampled.",
  ["src/fmt/mod.rs", "src/fmt/power_two.rs", "src/fmt/non_power_two.rs", "src/fmt/digit_writer.rs", "src/radix.rs", "src/arch/generic/digits.rs"], [("divide and conquer conversion", "src/fmt/non_power_two.rs"), ("width computation", "src/fmt/power_two.rs"), ("padding and sign layout", "src/fmt/mod.rs")], ["Display, Debug, Binary, Octal, LowerHex, UpperHex, in_radix"])

p("C12", "Literal macros denote the written integer",
  "Every literal accepted by the unsigned and signed literal macros (decimal, prefixed hexadecimal, octal and binary, with underscores where Rust literals allow them, with a leading underscore where the digits are not a Rust literal, with an explicit base, negative signed literals) produces exactly the integer it denotes, in any program, whatever names are in scope where it is written.",
  ["programs"], "all literals the macros accept",
  "A macro is expanded at compile time, so each test fixes one literal; the space of token shapes (identifier-like, literal-like, with a base) is not covered.",
  ["src/macros.rs", "src/parse/mod.rs"], [("token stringification and parsing", "src/macros.rs")], ["values of ubig! and ibig! expressions in generated programs"])

p("C13", "Byte-string conversions are exact inverses",
  "Building an unsigned integer from little- or big-endian bytes gives the number those bytes denote, including leading or trailing zero bytes and any length, and converting to bytes gives the unique shortest encoding of the value in the given order. Converting there and back is the identity.",
  ["inputs", "configurations"], "all byte strings of all lengths and all values",
  "Whether the length is a multiple of the word size, and where zero bytes fall, selects different paths; tests use a few lengths.",
  ["src/convert.rs"], [("word assembly from bytes", "src/convert.rs")], ["from_le_bytes, from_be_bytes, to_le_bytes, to_be_bytes"])

p("C14", "Conversions to and from primitives are exact or refused",
  "Converting any primitive integer or bool to a big integer preserves its value, and converting a big integer to any primitive integer type, or signed to unsigned, succeeds exactly when the value is in the target's range and then preserves it, and otherwise returns the out-of-bounds error. The same holds for converting primitive signed integers and signed big integers to unsigned big integers.",
  ["inputs", "configurations"], "all values near and far from every type boundary, all primitive types, every word size",
  "Boundaries (type minimum, maximum, one word, two words, negative extremes) differ per type and per word size; tests check a subset.",
  ["src/convert.rs", "src/primitive.rs"], [("range-checked narrowing", "src/convert.rs"), ("sign-magnitude conversion", "src/primitive.rs")], ["From, TryFrom in both directions"])

p("C15", "Float conversions round to nearest, ties to even",
  "Converting a big integer to f32 or f64 returns the representable value nearest to the exact integer, with ties going to the even significand, and infinity of the right sign when the rounded magnitude exceeds the largest finite value.",
  ["inputs", "configurations"], "all values, in particular exact ties, near ties with distant low bits, and overflow thresholds, every word size",
  "A tie is decided by bits arbitrarily far below the significand and the extraction path depends on word size and length; tests check a few values.",
  ["src/convert.rs"], [("top bits extraction, sticky bit and rounding", "src/convert.rs")], ["to_f32, to_f64 bit patterns"])

p("C16", "gcd and extended gcd are correct and give Bezout coefficients",
  "gcd(a,b) is the non-negative greatest common divisor for all big integers not both zero (gcd with one zero is the other's magnitude; both zero panics), and extended gcd returns the same g with x, y satisfying g = a*x + b*y, |x| <= max(|b|,1) and |y| <= max(|a|,1). The operands are left unchanged.",
  ["inputs", "configurations"], "all pairs of values of all length combinations and signs, every word size",
  "The Bezout identity can break in one sign or in one reduction step only for particular quotient sequences; tests use a few pairs.",
  ["src/gcd.rs"], [("Euclid with cofactor tracking", "src/gcd.rs")], ["gcd, extended_gcd on UBig and IBig"])

p("C17", "Modular ring operations are residue arithmetic",
  "In a ring with modulus m >= 1, converting any integer (big or primitive, negative included) gives the residue in 0..m-1, and +, -, *, negation in every operand form give the residue of the exact result; the reported modulus and residues are exact. A zero modulus panics.",
  ["inputs", "histories", "configurations"], "all moduli of all lengths (one word, normalised or not, many words, 1, powers of two), all elements, every form",
  "Reduction uses a shifted internal form whose carries and comparisons depend on the modulus' top bits; tests use a few moduli.",
  ["src/modular/add.rs", "src/modular/mul.rs", "src/modular/convert.rs", "src/modular/modulo_ring.rs", "src/modular/modulo.rs"], [("normalised modulus arithmetic", "src/modular"), ("conversion into the ring", "src/modular/convert.rs")], ["residue of every result, modulus"])

p("C18", "Modular powers, inverses and division are exact",
  "Raising a ring element to any non-negative power gives the residue of the exact power (1 mod m for exponent 0); the inverse exists exactly when the element is coprime to the modulus and then multiplies to 1; division multiplies by the inverse and panics when there is none; negative powers are powers of the inverse and panic when there is none.",
  ["inputs", "configurations"], "all moduli, elements and exponents of all lengths",
  "Windowed exponentiation depends on exponent bit patterns and length thresholds, and inverse sign fix-ups on the parity of the reduction; tests use a few.",
  ["src/modular/pow.rs", "src/modular/div.rs", "src/gcd.rs"], [("windowed exponentiation", "src/modular/pow.rs"), ("inverse via extended gcd", "src/modular/div.rs")], ["pow, pow_signed, inverse, / on Modulo"])

p("C19", "Ring elements never mix across rings and print faithfully",
  "Combining or comparing elements of two different ring objects always panics, even when the moduli are equal, while elements of one ring combine freely and are equal exactly when their residues are. Assigning from or cloning an element keeps its ring and value, and elements and rings print the residue and modulus in the requested radix.",
  ["histories", "inputs"], "all interleavings of operations over several rings of all sizes, including equal moduli and overwriting an element of one ring with one of another",
  "Tests exercise a couple of pairs; overwriting an element in place across rings of different sizes is history dependent.",
  ["src/modular/modulo.rs", "src/modular/cmp.rs", "src/modular/fmt.rs"], [("ring identity check", "src/modular/modulo.rs"), ("clone_from across rings", "src/modular/modulo.rs")], ["panic or value of every binary operation and ==, Display/Debug/hex of Modulo and ModuloRing"],
  )

p("C20", "Serialization round-trips and is the same on every platform",
  "Serializing any big integer and deserializing it gives back the value, the serialized form is the same fixed little-endian sequence of 64-bit words (with a sign for signed values) on every platform and word size, and sequences with superfluous high zero words still denote their value. Malformed or inconsistent input yields a deserialization error, never a panic or a wrong value.",
  ["inputs", "configurations"], "all values, all word sequences, self-describing and length-prefixed formats, exact, absent or wrong length announcements, every word size",
  "Tests round-trip two values through two formats in one configuration at a time and never compare platforms or feed malformed sequences.",
  ["src/serde.rs", "src/sign.rs"], [("64-bit chunking", "src/serde.rs")], ["serialized token stream, deserialization result"])

p("C21", "Random samples stay in range and every value is reachable",
  "Sampling uniformly from a half-open or inclusive range of big integers always returns a value inside the range, whatever the generator outputs. Every value of the range is equally likely when the generator is uniform, and an empty range panics.",
  ["inputs", "histories"], "all ranges (single value, within a word, straddling word boundaries, power-of-two sizes, negative bounds) and all generator output streams",
  "Tests check a few samples of pseudo-random streams; rejection and boundary behaviour depends on rare generator outputs.",
  ["src/rand.rs"], [("rejection sampling by words", "src/rand.rs")], ["gen_range / Uniform sample under scripted generators"])

p("C22", "Results do not depend on the word size or target",
  "The same sequence of operations on the same inputs gives the same values, texts, errors and panics on every supported word size (16, 32, 64 bits) and target, as long as no size limit is hit.",
  ["configurations", "histories", "inputs"], "all programs over the public API and all build configurations (native, 32-bit target, forced 16/32/64-bit words)",
  "The test suite runs in several configurations but each run only compares against its own literals; nothing compares configurations on common inputs.",
  ["src/arch/mod.rs", "src/arch/generic_16_bit", "src/arch/generic_32_bit", "src/arch/generic_64_bit", "src/arch/x86", "src/arch/x86_64", "src/primitive.rs"], [("architecture layer", "src/arch"), ("word-generic algorithms", "src")], ["outcomes of identical seeded programs in all configurations"])

p("C23", "Borrowed operands are never changed and all operand forms agree",
  "An operation never changes an operand it only borrows, values are independent after cloning (changing one never changes another), and the by-value, by-reference and assigning forms of one operation give the same result, also when both operands are the same object.",
  ["histories", "inputs"], "all operations, operand forms, aliasing patterns and buffer histories",
  "Each form has its own buffer-stealing path; tests check results of forms on a few values and never check that operands survive long histories.",
  ["src/add_ops.rs", "src/mul_ops.rs", "src/div_ops.rs", "src/bits.rs", "src/shift_ops.rs", "src/helper_macros.rs", "src/ubig.rs", "src/buffer.rs"], [("form-specific implementations", "src/*_ops.rs"), ("forwarding macros", "src/helper_macros.rs")], ["values of all live objects after each step of long random histories"])

p("C24", "The size limit is enforced exactly and never silently exceeded",
  "Numbers up to the advertised maximum bit length can be created and used; an operation whose exact result is longer than the maximum panics, and none returns a truncated or otherwise wrong value near the limit.",
  ["inputs", "configurations"], "all operations with operands and results at, just below and just above the limit (reachable in the 16-bit word configuration), and shift or bit counts up to the maximum machine integer",
  "On 64-bit words the limit is unreachable, and the tests in the 16-bit configuration do not visit it; count arithmetic overflow occurs only near it.",
  ["src/ubig.rs", "src/buffer.rs", "src/shift_ops.rs", "src/bits.rs", "src/pow.rs", "src/parse"], [("length check at normalisation", "src/ubig.rs"), ("capacity limits", "src/buffer.rs")], ["value or panic near MAX_BIT_LEN"])

p("C25", "Operations fail only as documented",
  "For all inputs, an operation returns normally unless its documented failure condition holds (division by zero, negative unsigned result, no inverse, mixing rings, gcd of zeros, bad radix, zero modulus, empty range, exceeding the size limit), and fallible conversions and parsers report errors as values. After a failed operation all other values are intact and usable.",
  ["histories", "inputs", "configurations"], "all operations and input lengths, in long histories in which failing operations are caught and the program continues",
  "Internal consistency checks (scratch memory estimates, carry and overflow assertions, capacity assertions) fire only for particular lengths and patterns; tests sample few lengths.",
  ["src/memory.rs", "src/buffer.rs", "src/mul", "src/div", "src/error.rs"], [("scratch memory estimates", "src/mul/*.rs, src/div/*.rs"), ("capacity assertions", "src/buffer.rs")], ["panic / error / value outcome of every call"])

p("C26", "Memory use stays proportional to the values held",
  "A live big integer owns no heap memory when it fits in one machine word and otherwise at most a small constant factor (with a small additive constant) of its own length, whatever larger values it came from; and all heap memory is released when the values are dropped, also after caught panics.",
  ["histories", "configurations"], "all operation histories, including shrinking, in-place overwriting and failing operations",
  "Tests check capacities after two constructions; retained oversized or leaked buffers change no value, so no value-based test sees them.",
  ["src/buffer.rs", "src/ubig.rs", "src/memory.rs"], [("compact capacity invariant", "src/buffer.rs"), ("scratch arena release", "src/memory.rs")], ["allocator-level byte counts between operations"],
  [dict(name="capacity", meaning="heap words owned by a value", where="src/buffer.rs")])

p("C27", "Mixed arithmetic with primitive integers equals converting first",
  "Every arithmetic, division and bitwise operator between a big integer and a primitive integer, in either order, operand form and assigning form, gives the exact result of first converting the primitive to a big integer, delivered in its documented result type; it panics exactly when that exact result is not representable there or the divisor is zero.",
  ["inputs", "configurations"], "all values and all twelve primitive integer types including their extremes, every form and order",
  "Thousands of trait implementations are generated by macros; tests touch a small subset of (type, operator, order, form) combinations and few extreme values.",
  ["src/add_ops.rs", "src/mul_ops.rs", "src/div_ops.rs", "src/bits.rs", "src/helper_macros.rs", "src/primitive.rs"], [("mixed-type operator macros", "src/helper_macros.rs"), ("result narrowing", "src/div_ops.rs, src/bits.rs")], ["return value / panic of each mixed operator"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
