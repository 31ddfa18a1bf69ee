import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
OPS="src/*.c"
p("C01","NaR propagates through every operation",
 "Every arithmetic, mathematical and conversion function of every one of the eight takum types returns NaR (or NaN when the result is an IEEE float) whenever any takum operand is NaR, and every conversion from an IEEE float returns NaR for NaN and for both infinities.",
 ["inputs"],"every public function, every operand position, every value of the other operands (all 2^64 takums, all int64 exponents, all floats)",
 "The 32/64-bit tests draw a few million pseudo-random operands and practically never hit NaR; two-operand tests never combine NaR with every partner; the comparison tolerates a difference of one in the bit string, which identifies NaR with its neighbour.",
 ["src/codec.c","src/conversion.c","src/util.h",OPS],[("decode maps NaR to NaN, encode maps NaN/+inf to NaR","src/codec.c"),("wrapper macros route operands through float","src/util.h")],["return value of each takum*_ function in takum.h"])
p("C02","Arguments outside the mathematical domain give NaR",
 "For every argument at which the documented real function is undefined (its pole or outside its domain, as listed in the manual page's NaR condition), the function returns NaR in all eight types, up to and including the exact boundary of the domain.",
 ["inputs"],"every takum in the complement of the documented domain, boundaries included",
 "Boundary values such as 0, 1 and -1 and exact poles are single points of 2^32 or 2^64 inputs that random sampling misses, and the one-step tolerance hides NaR/extreme-value confusions.",
 [OPS,"man/*.sh"],[("IEEE invalid/pole results become NaN/inf, which the encoder maps to NaR","src/codec.c"),("explicit pole tests in *_pi_times","src/cot.c, src/csc.c, src/sec.c, src/tan.c")],["return value of each function"])
p("C03","No NaR inside the domain: overflow saturates",
 "For non-NaR operands inside the documented domain no operation ever returns NaR; a result too large for the type saturates to the largest (or most negative) takum instead.",
 ["inputs"],"every non-NaR operand tuple inside the domain of every function, in particular operands near the extremes",
 "Overflow in the float intermediate needs extreme operands in 32/64-bit types that sampling rarely reaches, and -MAX versus NaR is within the tests' tolerance of one.",
 ["src/codec.c","src/conversion.c",OPS],[("clamping in the encoders","src/codec.c"),("RESULT_FIXER_MACRO overflow fixes","src/*.c")],["return value of each function"])
p("C04","A non-zero result never becomes zero",
 "An operation whose exact result is non-zero never returns zero: underflow saturates to the smallest takum of the right sign; this covers multiplication, division, inversion, roots, powers, exponentials, hyperbolic and inverse functions away from their zeros, and every conversion of a non-zero value.",
 ["inputs"],"every operand tuple whose exact result is non-zero",
 "Underflow appears only for extreme operands, and 0 and +-1 (as bit strings) are neighbours, which the tests accept as equal.",
 ["src/codec.c","src/conversion.c",OPS],[("clamping in the encoders, REDUCE saturation","src/codec.c, src/conversion.c"),("RESULT_FIXER_MACRO underflow fixes","src/*.c")],["return value of each function"])
p("C05","The sign of every result is right",
 "Every result carries the sign of the exact mathematical result for every operand combination: sign rules of multiplication, division, roots and integer powers (odd/even exponent of any 64-bit size), non-negativity of square root, absolute value, hypotenuse and arccosine, positivity of exponentials and hyperbolic cosine/secant, sign preservation of the odd monotone functions and of every conversion, and the sign of logarithms on either side of one.",
 ["inputs"],"every operand tuple of the listed functions, every int64 exponent",
 "root and integer_power are only tested with seven exponents; signs near zero and at extremes are hidden by the tolerance of one or not sampled.",
 ["src/multiplication.c","src/division.c","src/root.c","src/integer_power.c","src/codec.c",OPS],[("sign bit passed to the encoder separately from l","src/codec.c")],["return value of each function"])
p("C06","Bounded functions stay within their mathematical range",
 "Results never leave the closed range of the exact function as rounded to the type: sine, cosine and hyperbolic tangent within [-1,1], hyperbolic cosine at least 1, hyperbolic secant within (0,1], secant, cosecant and hyperbolic cotangent of magnitude at least 1, and the inverse trigonometric functions within the rounded multiples of pi that bound them.",
 ["inputs"],"every in-domain takum argument of the bounded functions in every type",
 "Range bounds are met with equality only at isolated arguments or at saturation, which sampling does not single out and the tolerance of one blurs.",
 ["src/cos.c","src/sin.c","src/tanh.c","src/cosh.c","src/sech.c","src/arc*.c"],[("libm kernel then monotone encode","src/util.h, src/codec.c")],["return value of each function"])
p("C07","Same-kind width conversions: exact widening, RNE narrowing",
 "Converting a takum (of either kind) to a wider type of the same kind preserves the bit string exactly (zero-extended on the right); converting to a narrower type rounds the bit string to nearest with ties to even, maps 0 to 0 and NaR to NaR, and saturates so that a non-zero real never becomes 0 or NaR.",
 ["inputs"],"all inputs of the 24 same-kind conversion functions",
 "No test exercises the width conversions directly; 32- and 64-bit inputs cannot be enumerated and ties/saturation are rare patterns.",
 ["src/conversion.c","src/util.c"],[("TAKUM_INTERNAL_CONVERT_EXPAND/REDUCE","src/conversion.c"),("util_round_uintN_to_number_of_bits","src/util.c")],["takumN_from_takumM, takum_linearN_from_takum_linearM"])
p("C08","Linear takum to float is the value, correctly rounded",
 "Converting a linear takum to float64 or long double returns exactly the value its bit string denotes ((-1)^S (1+f) 2^e of the takum definition) whenever it is representable, and otherwise that value rounded once to nearest-even; zero gives 0 and NaR gives NaN.",
 ["inputs"],"all 2^N bit strings of all four linear types, float32, float64 and long double targets",
 "The codec tests use a handful of reference values and random samples with tolerance; each regime/characteristic combination needs its own witness in the 32- and 64-bit types.",
 ["src/codec.c","src/conversion.c"],[("codec_takumN_to_l then codec_s_and_linear_l_to_float64/extended","src/codec.c"),("bias and mantissa-length tables","src/codec.c")],["takum_linearN_to_float32/float64/extended_float"])
p("C09","Float to linear takum rounds to nearest, saturates",
 "Converting a finite float32 or float64 to any linear takum type yields the takum whose bit string is the exact value's takum bit string rounded to nearest (ties to even), saturating at the smallest and largest magnitude with the sign kept; conversions from long double are off by less than one unit in the last place; +-0 gives 0.",
 ["inputs"],"all finite float32/float64/long double values including subnormals, ties and out-of-range magnitudes",
 "float32 conversions are untested, ties and saturation boundaries are isolated points of 2^32/2^64 inputs, and a tolerance of one accepts truncation in place of rounding.",
 ["src/codec.c","src/conversion.c"],[("codec_linear_l_from_float32/64/extended and codec_takumN_from_s_and_l","src/codec.c")],["takum_linearN_from_float32/float64/extended_float"])
p("C10","Logarithmic x, /, sqrt are correctly rounded",
 "For takum8, takum16 and takum32, multiplication, division and square root of non-NaR, non-zero, in-domain operands return the takum nearest (ties to even on the bit string, saturating) to the exact product, quotient or root, computed on the logarithmic values; for takum64 the result is off by at most one unit in the last place.",
 ["inputs"],"all operand pairs of takum8/16/32/64",
 "2^64 operand pairs for takum32 cannot be enumerated and the tests accept results that are off by one, so they cannot tell correct rounding from truncation.",
 ["src/multiplication.c","src/division.c","src/square_root.c","src/codec.c"],[("addition/subtraction/halving of l, exact in the working float","src/multiplication.c"),("encoder rounding","src/codec.c")],["takumN_multiplication, takumN_division, takumN_square_root"])
p("C11","Roots and integer powers honour every 64-bit exponent",
 "integer_power(t,n) and root(t,n) compute t^n and the n-th root for every int64 n including 0, +-1, INT64_MIN and INT64_MAX: parity of n decides the sign, n is never truncated or wrapped, t^1 and the first root return t unchanged, t^0 is one, the documented NaR cases are exactly those and every other case saturates.",
 ["inputs"],"all takums of all eight types times all 2^64 exponents",
 "The tests use only the exponents -100,-10,-1,0,1,10,100.",
 ["src/integer_power.c","src/root.c"],[("multiplying/dividing l by n","src/integer_power.c, src/root.c"),("powl with long double exponent","src/integer_power.c, src/root.c")],["takum*_integer_power, takum*_root"])
p("C12","Identity laws hold bit-exactly for every operand",
 "For every takum t of every type: t*1 = 1*t = t and t/1 = t, t*(-1) = t/(-1) = -t, t*0 = 0 for non-NaR t, t/t = 1 for non-zero non-NaR t; for linear takums additionally t+0 = 0+t = t-0 = t and t-t = 0; converting a linear takum to float64 (8/16/32) or long double (all) and back returns t.",
 ["inputs"],"all takums of all types",
 "The test suite samples operands at random, so one operand is exactly 1, 0 or equal to the other with negligible probability, and it tolerates a difference of one.",
 ["src/multiplication.c","src/division.c","src/addition.c","src/subtraction.c","src/codec.c"],[("lossless decode/encode","src/codec.c")],["return values of the four arithmetic operations and conversions"])
p("C13","Absolute value, sign and log inversion are exact bit operations",
 "absolute returns t or its negation so that the result is non-negative (NaR stays NaR), sign returns exactly -1, 0, 1 or NaR, and inversion of a logarithmic takum returns exactly the takum 1/t (an involution, with 1/0 = NaR) for every t of every type.",
 ["inputs"],"all takums of all types",
 "32- and 64-bit inputs are sampled; NaR, 0 and extremes are practically never drawn and an off-by-one result passes.",
 ["src/absolute.c","src/sign.c","src/inversion.c"],[("two's complement bit manipulation","src/inversion.c, src/absolute.c, src/sign.c")],["takum*_absolute, takum*_sign, takumN_inversion"])
p("C14","precision() reports the number of mantissa bits",
 "For every takum of every type precision returns the number p of explicit mantissa bits its bit string carries by the takum definition (n-5-r, at least 0), the worst case n-12 (at least 0) for zero and NaR, and linear and logarithmic types agree.",
 ["inputs"],"all 2^N bit strings of all eight types",
 "32/64-bit regimes with long prefixes occupy small fractions of the space and zero/NaR single points.",
 ["src/precision.c"],[("p_lut and DR extraction","src/precision.c")],["takum*_precision"])
p("C15","No undefined behaviour and guaranteed termination",
 "For every argument value, each public function executes no undefined behaviour (signed overflow, invalid shift, division by zero, out-of-range float-to-integer conversion, out-of-bounds table access, uninitialised read) and returns after a bounded number of steps.",
 ["inputs"],"all argument values of all public functions",
 "Tests run without sanitizers on a sample of inputs; the offending inputs (NaR, extremes, particular regimes) are single points.",
 ["src/*.c","src/util.c"],[("value ranges of shift amounts, table indices and float-to-int casts","src/codec.c, src/util.c")],["any public function"])
p("C16","Functions are pure and reentrant",
 "Every public function's result depends only on its arguments: no writable static or global state is kept, no memory is allocated or leaked, no input/output is performed, the floating-point environment and locale are not changed, so concurrent or repeated calls with the same arguments give the same result.",
 ["histories","schedules"],"all call histories and all interleavings of calls from several threads",
 "The tests are single-threaded and call each function in one fixed order.",
 ["src/*.c"],[("no non-const static objects, only math.h callees","src/*.c")],["object-file data sections and call graph of the library"])
p("C17","Each function applies its own kernel, at sufficient precision",
 "Every operation of every one of the eight types evaluates the mathematical function its name states on the exact values of its operands in documented order, carrying at least the precision of the result type through every intermediate step (long double for the 64-bit types), and the eight siblings of an operation agree on the function evaluated.",
 ["inputs"],"all functions x types, all arguments",
 "A narrowed intermediate or a wrong sibling conversion shows only on part of the range or only in the last bits, which the tolerance and the sampling hide.",
 ["src/*.c","src/util.h"],[("UTIL_*_WRAPPER macros","src/util.h"),("kernel helper functions","src/*.c")],["return value of each function"])
p("C18","Exactly representable special results are exact",
 "Where argument and exact result are distinguished values the result is exact in every type: exp, 2^x and 10^x of 0 are 1, logarithms of 1 are 0, f(0)=0 for the odd functions, cos(0)=cosh(0)=1, 2^1=2 and lb(2)=1 for linear types, and sine, cosine, tangent, cotangent, secant and cosecant of k*pi/2 given as non-negative multiples of pi are exactly 0, +-1 or NaR.",
 ["inputs"],"the distinguished arguments (all integers and half-integers for the pi-multiple functions) in all eight types",
 "Distinguished points are missed by random sampling in the 32/64-bit types and 0/+-1 neighbours are accepted.",
 ["src/*.c"],[("explicit remainder tests in *_pi_times; libm exactness at special points","src/cos.c, src/sin.c, src/tan.c")],["return value of each function"])
p("C19","Header constants are the correctly rounded values",
 "Every numeric constant of the public header equals the correctly rounded (nearest, ties to even, on the takum bit string) encoding of the real number its name states in the respective type, and the structural constants (NaR, one, smallest, largest) match the definition of the format.",
 ["configurations"],"all constants x all eight types",
 "The tests compare against the library's own conversion, so a common error in both cancels, and constants without a test are not compared.",
 ["takum.h"],[("TAKUM*_ macro definitions","takum.h")],["macros of takum.h"])
p("C20","Header, library and build agree on one clean API",
 "Every function declared in the public header is defined exactly once with exactly that prototype and is part of the built library, the library exports no public function the header does not declare, all eight types offer the same set of operations, and every external symbol of the library lies in the library's own name space.",
 ["configurations","programs"],"all programs that compile against the header and link the library",
 "Tests link only what they call; a missing definition, stray export or prototype mismatch elsewhere is invisible to them.",
 ["takum.h","Makefile","src/*.h","src/*.c"],[("declarations, SRC list, static helpers","takum.h, Makefile, src/*.c")],["declarations of takum.h, symbol table of the library"])
p("C21","Commutativity and parity symmetries are bit-exact",
 "a+b = b+a, a*b = b*a and hypotenuse(a,b) = hypotenuse(b,a) for every pair in every type; for linear takums a-b = -(b-a), (-a)*b = a*(-b) = -(a*b), and f(-t) = -f(t) for the odd and f(-t) = f(t) for the even elementary functions.",
 ["inputs"],"all operand pairs / all operands",
 "Relations between two runs are not tested at all, and each side is only checked to within one unit.",
 ["src/addition.c","src/multiplication.c","src/hypotenuse.c","src/codec.c"],[("symmetric kernels, sign-magnitude symmetric encoder","src/codec.c")],["return values"])
p("C22","Logarithmic takum <-> float conversions are accurate everywhere",
 "Converting a logarithmic takum to float32, float64 or long double yields (-1)^S sqrt(e)^l within a few units in the last place of the float type (whenever that is in its normal range), and converting any finite non-zero float to a logarithmic takum is off by at most one unit in the last place of the takum; takum to long double and back is the identity for 8, 16 and 32 bits.",
 ["inputs"],"all takums of the four logarithmic types and all finite floats",
 "float32 conversions are untested; error grows with |l| and shows only for large magnitudes that sampled tests tolerate.",
 ["src/conversion.c","src/codec.c","src/util.h"],[("powl(SQRTE,l) and 2*logl(|f|)","src/conversion.c")],["takumN_to_float*, takumN_from_float*"])
p("C23","Calculator operators call the function they name",
 "In the RPN calculator every operator token applies, in each of the eight modes, the library function of that name for the active type to its operands in stack order, and no token sequence reads or writes outside the stack, the register file or the operator table.",
 ["histories","inputs"],"all input lines / token sequences",
 "The calculator has no tests.",
 ["example/calculator.c"],[("operators[] table and process_token","example/calculator.c"),("stack_push/stack_pop bounds","example/calculator.c")],["calculator output"])
p("C24","Transcendental results are within one ULP on the whole domain",
 "Every transcendental operation returns a takum within one unit in the last place of the exact result for every in-domain argument.",
 ["inputs"],"all in-domain arguments of all types",
 "Only sampled for 32/64 bits and against a reference that uses the same kernels.",
 ["src/*.c"],[("libm kernels in extended precision","src/*.c")],["return value of each function"])
p("C25","Monotone functions stay monotone after rounding",
 "Operations implementing monotone real functions (exp, ln, square root, arctangent, sinh, tanh, ...) are monotone non-decreasing on the ordered takums of each type.",
 ["inputs"],"all ordered pairs of arguments",
 "Never tested; a pairwise relation over 2^64 inputs.",
 ["src/*.c"],[("monotone encoder over libm kernels","src/codec.c")],["return value of each function"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert len(d['title'])<=80
print(len(P))
