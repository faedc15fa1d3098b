#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
U = "include/AesiMultiprecision/Aeu.h"
S = "include/AesiMultiprecision/Aesi.h"
P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
         "why_tests_cant": why,
         "anchors": {"files": list(files), "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)


RND = "The tests draw a few hundred random operands per width; carries, borrows and block boundaries that need particular block patterns are hit with negligible probability."

p("P01", "Unsigned addition, subtraction, ++ and -- are exact modulo 2^W",
  "For every W-bit unsigned number a and b, a+b, a-b, -a, +a, ++a, a++, --a, a-- and the assignment forms give exactly the mathematical result reduced modulo 2^W; post-forms return the old value. "
  "The same holds when one operand is any built-in unsigned integer (bool, 8, 16, 32, 64 bits, both long and long long), on either side where the operator is offered.",
  "all operand values, every width and every built-in unsigned operand type", RND, [U],
  [("block-wise carry chain", U + " addLine / makeComplement"), ("built-in addendum carry", U + " operator+=(Aeu&, Unsigned)"), ("increment ripple", U + " operator++ / operator--")],
  observe=["value of the result and of the operand after the call"])
p("P02", "Unsigned multiplication is exact modulo 2^W",
  "For all W-bit unsigned a and b, a*b and a*=b give the mathematical product reduced modulo 2^W. The same holds for every built-in unsigned factor of any type, on either side.",
  "all operand values (every number of significant blocks in either operand), every factor type", RND, [U],
  [("schoolbook product with filled-block counts", U + " operator*=(Aeu&, const Aeu&)"), ("built-in factor", U + " operator*=(Aeu&, Unsigned)")])
p("P03", "Unsigned division gives the unique quotient and remainder",
  "For every unsigned n and every d != 0, n/d and n%d (operators, assignment forms, both forms of divide, and built-in operands on either side) give q and r with n = q*d + r and 0 <= r < d. No intermediate step loses a bit, even when divisor and dividend use the full width.",
  "all dividends and all non-zero divisors", RND + " Quotient corner cases depend on both operands.", [U],
  [("restoring division loop", U + " divide"), ("operators", U + " operator/ operator%")])
p("P04", "Unsigned comparison is the order of the values, at any mix of widths",
  "For unsigned numbers of equal or different widths, and for every built-in unsigned operand, ==, !=, <, <=, >, >=, <=> and compareTo answer exactly as the mathematical values compare. In particular high blocks that only one side has are never ignored.",
  "all value pairs, all width pairs, all built-in unsigned types", RND + " Mixed widths are sampled at one pair of widths.", [U],
  [("block-wise comparison", U + " compareTo<otherBitness>"), ("built-in comparison", U + " compareTo(Unsigned), compareTo(uint64_t), operator=="), ("operator<=>", U + " operator<=>")])
p("P05", "Bitwise operators act on every bit independently",
  "For unsigned numbers, ~, ^, &, | and their assignment forms, also with a built-in unsigned operand on either side, give in every bit position exactly the Boolean function of the operands' bits at this position (a built-in operand is zero-extended).",
  "all operand values, all bit positions, all built-in operand types", RND, [U],
  [("block loops", U + " operator~ ^= &= |="), ("built-in forms", U + " free operators ^ & |")])
p("P06", "Shifts multiply or divide by a power of two; out-of-range shifts do nothing",
  "For every unsigned a and every shift count s of any built-in unsigned type with s < W, a<<s equals a*2^s modulo 2^W and a>>s equals floor(a/2^s), as do the assignment forms. For s >= W the number is left unchanged.",
  "all values and all shift counts including 0, multiples of 32, W-1, W and counts above 2^32", "Tests use random counts below W; block-multiple counts and counts at the limits are rarely or never drawn.", [U],
  [("block and bit shift", U + " operator<<= operator>>=")])
p("P07", "Bit, byte and block accessors touch exactly the addressed part",
  "getBit/getByte/getBlock return the addressed part of the magnitude and setBit/setByte/setBlock change exactly this part and nothing else, for signed and unsigned numbers alike; setters never change a signed number's sign. An index out of range reads as zero and writes nothing.",
  "all values, all indices in the whole size_t range, all bit/byte/block payloads", "Tests only use in-range indices; the boundary index equal to the count is not exercised.", [U, S],
  [("index checks", U + " setBit getBit setByte getByte setBlock getBlock"), ("forwarders", S + " same names")])
p("P08", "Counts and predicates describe the magnitude exactly",
  "bitCount and byteCount are the numbers of significant bits and bytes (0 for zero), filledBlocksNumber the number of significant 32-bit blocks, and isZero, isOdd, isEven, getBitness and totalBlocksNumber agree with the value and the width. swap exchanges two values completely.",
  "all values", RND, [U, S], [("leading-block scans", U + " bitCount byteCount filledBlocksNumber isZero"), ("swap", U + " swap, " + S + " swap")])
p("P09", "Unsigned conversions keep the value or its low-order part",
  "Constructing an unsigned number from a built-in unsigned value gives that value; integralCast<T> gives the value modulo 2^(bits of T) for every built-in integral T (for bool: whether the low 64 bits are non-zero); precisionCast to a wider type keeps the value and to a narrower type keeps the low bits. Default-constructed with {} is zero, copies are equal and independent.",
  "all values, all built-in types, widening and narrowing width pairs", RND, [U], [("constructors", U + " Aeu(Integral)"), ("casts", U + " integralCast precisionCast")])
p("P10", "gcd, Bezout coefficients and lcm are number-theoretically right",
  "For all unsigned a, b (not both zero), gcd(a,b) divides both and is the greatest such number, the four-argument form returns the same gcd with x, y satisfying a*x + b*y = gcd modulo 2^W, gcd(0,b) = b and gcd(a,0) = a. lcm(a,b) = a/gcd*b modulo 2^W.",
  "all operand pairs", RND, [U], [("Euclid loop", U + " gcd"), ("extended Euclid loop", U + " gcd with bezout"), ("lcm", U + " lcm")])
p("P11", "powm is modular exponentiation",
  "For modulo m >= 1 whose square fits the width, powm(b, e, m) equals b^e mod m for every base (also b >= m, b = 0, b = 1) and every exponent (also 0), whether the exponent has the same or another width than base and modulo.",
  "all bases, exponents and moduli with m*m < 2^W", RND + " Degenerate bases and moduli are not drawn.", [U], [("square-and-multiply", U + " powm (both overloads)")])
p("P12", "power2 and squareRoot are exact",
  "power2(k) is 2^k for k below the width and zero otherwise, for both classes. squareRoot of an unsigned or positive number n is the largest r with r*r <= n; of zero or a negative number it is zero.",
  "all k, all n", RND, [U, S], [("power2", U + " power2"), ("Newton iteration", U + " squareRoot")])
p("P13", "Text parsing yields the positional value of the digits",
  "A number built from text (pointer+size, literal, string, string_view; char and wchar_t) with an optional 0b/0o/0x prefix (either case) equals the base-2/8/16 (or 10 without prefix) value of its digits modulo 2^W; leading non-alphanumeric characters and characters that are no digit of the base are skipped, and an empty or digit-free text gives zero. For the signed class the sign is negative iff the number of dashes is odd and the value is non-zero.",
  "all character sequences up to the bound, both character types, all four bases", "Tests parse renderings of random numbers; malformed characters, upper-case prefixes and boundary digits are barely sampled.", [U, S],
  [("digit loop", U + " Aeu(const Char*, size_t)"), ("dash count", S + " traverseDashes, Aesi(const Char*, size_t)")])
p("P14", "getString writes the shortest numeral and never leaves the buffer",
  "getString<2|8|10|16> writes the number's shortest numeral (optional 0b/0o/0x prefix, '-' for negative numbers, upper or lower case hex digits, char and wchar_t) when the buffer is large enough for numeral and terminator, so that parsing it back gives the number. For every buffer size it never writes at or beyond buffer+bufferSize.",
  "all values, all buffer sizes, all bases, both character types", "Tests use large buffers only.", [U, S], [("digit extraction", U + " getString"), ("sign", S + " getString")])
p("P15", "Stream output prints the number in the stream's base",
  "operator<< prints the number's shortest numeral in decimal, octal or hexadecimal as the stream's basefield says, with 0o/0x when showbase is set on a non-decimal stream and the stream's letter case, '-' first for negative numbers, for char and wchar_t streams.",
  "all values, all combinations of base, showbase and uppercase", RND, [U, S], [("inserter", U + " operator<<"), ("signed inserter", S + " operator<<")])
p("P16", "Binary stream I/O round-trips in both byte orders",
  "writeBinary emits exactly W/8 bytes, block by block from the most significant block (bigEndian) or the least significant one; readBinary of those bytes in the same order restores the number whatever it held before. When the stream ends early the missing blocks are zero.",
  "all values, both orders, all stream lengths", "Tests round-trip complete streams only.", [U], [("readBinary / writeBinary", U)])
p("P17", "A signed zero is always the canonical zero",
  "Whatever operation produced it, a signed number whose value is zero reports isZero, is neither positive nor negative, has zero magnitude, compares equal to 0 and prints without '-'; conversely isZero holds only when the magnitude is zero. (Raw setBit/setByte/setBlock, documented not to touch the sign, are excluded.)",
  "all operands of every operation that can produce zero", "Tests check sampled results by value; a stale sign or magnitude behind a zero is invisible to them.", [S],
  [("sign updates", S + " operator+= -= *= /= %= ++ -- divide precisionCast Aesi(const Aeu&)")], over=("inputs", "histories"))
p("P18", "Signed addition, subtraction, negation, ++ and -- are exact",
  "For signed numbers a, b whose exact result has a magnitude below 2^W, a+b, a-b, -a, +a, ++a, a++, --a, a-- and the assignment forms give exactly that integer, also with any built-in integer on either side; inverse() negates.",
  "all operand signs and magnitudes without overflow, all built-in types including their minimum", RND, [S], [("sign/magnitude cases", S + " operator+= operator-= operator++ operator--")])
p("P19", "Signed multiplication is exact",
  "For signed a, b the product a*b, a*=b has the magnitude |a|*|b| modulo 2^W and, where |a|*|b| < 2^W, is exactly the integer product; the same holds for every built-in integer factor including the type's minimum, on either side.",
  "all operand signs and magnitudes, all built-in types", RND, [S], [("sign handling", S + " operator*=")])
p("P20", "Signed division truncates toward zero and the remainder follows the dividend",
  "For signed n and d != 0, n/d is the quotient rounded toward zero and n%d the remainder with n = (n/d)*d + n%d, whose sign is that of n or zero; operators, assignment forms, divide and built-in integer operands of every type (including the type's minimum) agree.",
  "all operand signs and magnitudes with d != 0", RND + " Negative moduli are not tested.", [S], [("sign handling", S + " operator/= operator%= divide")])
p("P21", "Signed comparison is the order of the integers",
  "For signed numbers of equal or different widths and for every built-in integer (signed or unsigned, including the extremes of 64-bit types), ==, !=, <, <=, >, >=, <=> and compareTo answer exactly as the integers compare.",
  "all value pairs, width pairs and built-in types", RND + " Extremes of built-in types and mixed widths are not drawn.", [S], [("comparison by sign then magnitude", S + " compareTo operator== operator<=>")])
p("P22", "Signed conversions keep value and sign",
  "A signed number built from any built-in integer (including the most negative) or from an unsigned number has that value; integralCast<T> returns the value reduced modulo 2^(bits of T) for signed T, and exactly the value where it fits; unsignedCast is the magnitude; precisionCast keeps sign and the (low-order part of the) magnitude; copies and assignments from integers are exact.",
  "all values, all built-in types, width pairs", RND, [S], [("constructors", S + " Aesi(Integral), Aesi(const Aeu&)"), ("casts", S + " integralCast precisionCast unsignedCast")])
p("P23", "Operands are left alone and self-assignment forms work",
  "Binary operators and comparisons never modify their operands, a op= b modifies only a and returns a reference to a, and every assignment operator gives the right result when both operands are the same object (a+=a, a-=a, a*=a, a/=a, a%=a, a^=a, a&=a, a|=a, a.swap(a), a=a).",
  "all values, all operators of both classes", "Tests almost never alias operands or look at operands afterwards.", [U, S], [("by-reference operands", U + " / " + S + " assignment operators")], over=("inputs", "programs"))
p("P24", "No public operation has undefined behaviour or touches memory out of bounds",
  "For every input allowed by the documentation no operation reads uninitialised memory, accesses memory outside its operands and buffers, overflows a signed integer, shifts by the operand width or more, or divides by zero internally.",
  "all inputs of all public operations", "The sanitizer programs run a handful of random operands.", [U, S], [("index arithmetic and shifts", U), ("negation of built-in minimum", S)])
p("P25", "GMP conversion keeps the value",
  "With GMP integration on, a number constructed from an mpz value equals that value modulo 2^W (its magnitude for the unsigned class, with its sign for the signed class), and == against a GMP expression compares values.",
  "all mpz values up to the bound", "Tests construct from random values that fit the width.", [U, S], [("limb export", U + " Aeu(const mpz_class&)"), ("sign", S + " Aesi(const mpz_class&)")])
p("P26", "Signed and unsigned classes agree on non-negative values",
  "For non-negative operands whose exact result is non-negative and fits the width, every arithmetic operation, comparison, cast, count, square root, text rendering and parsing gives the same answer in the signed and in the unsigned class.",
  "all non-negative operands", "No test compares the two classes with each other.", [U, S], [("delegation to the unsigned base", S)], over=("inputs", "programs"))
p("P27", "The unchecked build mode changes nothing for valid arguments",
  "With AESI_UNSAFE defined, every operation with arguments inside the documented ranges gives the same result as in the default build.",
  "all in-range arguments, both build configurations", "The stable tests run one configuration.", [U, S], [("AESI_UNSAFE guards", U + " setBit getBit setByte getByte setBlock getBlock")], over=("inputs", "configurations"))
p("P28", "Compile-time evaluation gives the run-time result",
  "Every operation usable in a constant expression yields the same value when evaluated at compile time as at run time.",
  "all constant operands", "Tests evaluate a few constants.", [U, S], [("constexpr functions", U + " / " + S)], over=("inputs", "programs"))
p("P29", "CUDA per-block atomic set and exchange transfer every block",
  "In device code, tryAtomicSet and tryAtomicExchange transfer every block of the value, each block atomically.",
  "all values and interleavings of device threads", "No CUDA compiler in the test environment.", [U, S], [("atomicExch loop", U + " tryAtomicSet tryAtomicExchange")], over=("schedules",))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
