#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
ALLCFG = "both curve families (the default curve and the SNARK curve), both code-generation modes, with and without the mulx instruction"
prop('C01', 'Base field addition, subtraction, negation and halving are exact',
 'For any two fully reduced base-field elements, addition, subtraction, negation, division by two and division by four return the fully reduced element that modular arithmetic prescribes, and the unreduced add, subtract and shift helpers return the exact 256-bit result. The result is the same when the output object is one of the inputs, and in every code-generation mode.',
 ['inputs', 'configurations'], 'every pair of elements in [0,p)^2, every aliasing of output and inputs, ' + ALLCFG,
 'The tests try a few dozen random or small operands out of 2^508 pairs; a carry or borrow that is lost only for one limb pattern is never exercised.',
 ['src/zm2.cpp', 'include/zm2.h'], [('generated add/sub/neg/shift routines', 'src/zm2.cpp PairingCode'), ('halving and quartering tables', 'include/zm2.h Fp::divBy2, Fp::divBy4')])
prop('C02', 'Base field multiplication and integer conversion are exact',
 'For any two fully reduced base-field elements the product is the fully reduced element equal to their product modulo p; converting any machine integer into the field and reading an element back as an integer, its lowest word or its parity are exact inverses of each other.',
 ['inputs', 'configurations'], 'every pair of elements in [0,p)^2, every 32-bit integer, every aliasing, ' + ALLCFG,
 'Tests multiply a handful of fixed and random values; a wrong Montgomery carry shows with probability about 2^-64 per random product.',
 ['src/zm2.cpp', 'include/zm2.h'], [('interleaved Montgomery multiplication', 'src/zm2.cpp PairingCode::Fp_mul, montgomery1, mul4x1'), ('conversion in and out of Montgomery form', 'include/zm2.h Fp::set, Fp::get, Fp::getLow')])
prop('C03', 'Base field inversion returns the true inverse of every nonzero element',
 'For every nonzero base-field element the inversion terminates within 508 halving steps and returns the fully reduced element whose product with the input is one, also when the result overwrites the input.',
 ['inputs', 'configurations'], 'every nonzero element of [0,p), ' + ALLCFG,
 'The inversion is a data-dependent loop of up to 508 iterations; tests follow only the branch sequences of a few random values.',
 ['src/zm2.cpp', 'include/zm2.h'], [('almost-inverse loop', 'src/zm2.cpp PairingCode::make_Fp_preInv'), ('power-of-two correction table', 'include/zm2.h Fp::inv, src/zm2.cpp Fp::setModulo')])
prop('C04', 'Double-width products and Montgomery reduction are exact and reduced',
 'Double-width multiplication returns the exact 512-bit product; double-width addition, subtraction and negation of values below 2^256 p return the value congruent to the mathematical result and below 2^256 p (zero negates to zero); Montgomery reduction of any such value returns the fully reduced element.',
 ['inputs', 'configurations'], 'every pair of 256-bit factors in the documented ranges and every pair of 512-bit values below 2^256 p, every aliasing, ' + ALLCFG,
 'Tests sample tens of random operands; carries across limb 3/4 or into limb 7, and the zero and boundary cases of the conditional corrections, occur with negligible probability.',
 ['src/zm2.cpp', 'include/zm2.h'], [('4x4 limb multiplication', 'src/zm2.cpp PairingCode::mul4x4'), ('reduction', 'src/zm2.cpp PairingCode::mont_mod'), ('double-width add/sub/neg', 'src/zm2.cpp PairingCode::make_FpDbl_*')])
prop('C05', 'Quadratic extension arithmetic is exact',
 'For all elements of the quadratic extension, addition, subtraction, negation, multiplication, squaring, multiplication by the non-residue, by a base-field scalar and by the imaginary unit, halving, inversion and the double-width variants compute the field result with fully reduced components, whichever arguments alias.',
 ['inputs', 'configurations'], 'all elements with components in [0,p), every aliasing pattern the library allows, ' + ALLCFG,
 'Each operation has up to 2^1016 operand pairs and delayed reductions whose range arguments are only comments; tests use random operands that never come near the range limits.',
 ['src/zm2.cpp', 'include/bn.h'], [('lazy-reduction multiplication', 'src/zm2.cpp PairingCode::make_Fp2_mul, set_p_Fp2Dbl_mulOpt'), ('C++ operations', 'include/bn.h Fp2T')])
prop('C06', 'Sextic (cubic over quadratic) extension arithmetic is exact',
 'For all elements of the cubic extension over the quadratic field, addition, subtraction, multiplication, squaring, inversion and the sparse multiplications compute the ring result with fully reduced coefficients, whichever arguments alias.',
 ['inputs', 'configurations'], 'all elements with coefficients in [0,p), aliasing of output and inputs, ' + ALLCFG,
 'Tests compare a few random products; lazily reduced intermediate sums overflow only at range corners.',
 ['src/zm2.cpp', 'include/bn.h'], [('double-width Karatsuba product', 'src/zm2.cpp PairingCode::set_p_Fp6Dbl_mul'), ('C++ operations', 'include/bn.h Fp6T')])
prop('C07', 'Degree-12 extension arithmetic is exact',
 'For all elements of the degree-12 field, addition, subtraction, multiplication, squaring, the sparse line multiplications and the product of two sparse lines compute the ring result with fully reduced coefficients; inverting a nonzero element gives an element whose product with it is one.',
 ['inputs', 'configurations'], 'all elements with coefficients in [0,p), sparse operands in their documented shape, ' + ALLCFG,
 'There are 2^6096 operand pairs and about fifty lazily reduced sub-products per multiplication; the tests use a few dozen pseudo-random points.',
 ['src/zm2.cpp', 'include/bn.h'], [('generated product and square', 'src/zm2.cpp PairingCode::make_Fp12_mul, make_Fp12_square'), ('sparse products and inverse', 'include/bn.h Fp12T::Dbl, Fp12T::inverse')])
prop('C08', 'Cyclotomic and compressed squaring agree with ordinary squaring',
 'For every element of the cyclotomic subgroup, the specialised squaring and n compressed squarings followed by decompression give the same element as n ordinary squarings, with fully reduced coefficients, including elements whose compressed form has a vanishing coefficient as far as decompression is documented to support it.',
 ['inputs', 'configurations'], 'all elements of the cyclotomic subgroup (coefficients constrained by the subgroup equations), n = 1 and 2 compressed steps, ' + ALLCFG,
 'Tests run the compressed squaring on one pairing value only.',
 ['include/bn.h', 'src/zm2.cpp'], [('compressed squaring', 'src/zm2.cpp PairingCode::make_Compress_square_n, include/bn.h CompressT'), ('cyclotomic squaring', 'include/bn.h Fp12T::sqru')])
prop('C09', 'Frobenius maps are the p-power automorphisms',
 'On the quadratic, sextic-twist and degree-12 fields the Frobenius operations equal raising to the p, p^2 and p^3 power, for every element.',
 ['inputs', 'configurations'], 'all elements, both curve families',
 'Tests check one element per map.',
 ['include/bn.h'], [('Frobenius maps', 'include/bn.h Fp12T::Frobenius, Frobenius2, Frobenius3'), ('Frobenius constants', 'include/bn.h ParamT::init')])
prop('C10', 'Point doubling, addition and negation implement the elliptic-curve group law',
 'For every pair of points of the curve and of its twist, given in any valid projective representation, doubling, addition, subtraction and negation return a representation of the group-law result, including the point at infinity, equal points and opposite points, and when the output is one of the inputs.',
 ['inputs', 'configurations'], 'all points over the base field and over the quadratic field in Jacobian or homogeneous coordinates with arbitrary nonzero scaling; every exceptional case; every aliasing; both curve families',
 'Tests use multiples of two fixed generators, mostly normalised; representations with other denominators and exceptional inputs are rare or absent.',
 ['include/bn.h'], [('Jacobian formulas', 'include/bn.h ecop::ECDouble, ecop::ECAdd'), ('point classes', 'include/bn.h EcT')])
prop('C11', 'Scalar multiplication computes the exact multiple for every scalar',
 'Multiplying any point by any scalar n of the supported integer types returns n times the point: zero gives infinity, negative scalars give the negated multiple, and the result does not depend on the length or type of the scalar.',
 ['inputs'], 'every point, every int, 64-bit and big-integer scalar up to the stated bit bound',
 'Tests use a few fixed scalars; windowing and leading-bit handling depend on each bit pattern.',
 ['include/bn.h', 'include/zm.h'], [('double-and-add loop', 'include/bn.h ecop::ScalarMult'), ('scalar bit access', 'include/zm.h util::IntTag')])
prop('C12', 'Normalisation, equality and validity of points do not depend on coordinates',
 'Normalising a point returns the unique affine representative (infinity stays infinity), two representations compare equal exactly when they denote the same point, and a point is reported valid exactly when it satisfies the curve equation of its group.',
 ['inputs'], 'all coordinate triples with components in [0,p) over both fields, including zero denominators, both curve families',
 'Tests compare a few points with unit or small denominators.',
 ['include/bn.h'], [('normalisation', 'include/bn.h ecop::NormalizeJac, NormalizeHom'), ('comparison and validity', 'include/bn.h EcT::operator==, isValid, ecop::isOn*')])
prop('C13', 'Line evaluations match the tangent and chord functions of the Miller loop',
 'Each point-doubling and point-addition step of the Miller loop updates the running point by the group law and evaluates, up to a factor in a proper subfield, the tangent or chord line at the other point; the variants that defer the evaluation give the same line.',
 ['inputs', 'configurations'], 'all running points in homogeneous coordinates, all affine evaluation points, ' + ALLCFG,
 'Tests check final pairing values of fixed points only; a step that is wrong for a coordinate pattern is not reached.',
 ['src/zm2.cpp', 'include/bn.h'], [('doubling step', 'src/zm2.cpp PairingCode::make_pointDblLineEval'), ('addition step', 'include/bn.h Fp6T::pointAddLineEval')])
prop('C14', 'The pairing entry points compute the same optimal ate pairing',
 'The pairing of any two points equals the optimal ate Miller loop value raised to the final exponent: it is one when either point is infinity, it is the same for every coordinate representation of the points, and for finite points the precomputed, single and product variants of the Miller loop agree with it.',
 ['inputs', 'configurations'], 'all points of both groups as symbolic coordinates, the whole loop of the built-in parameter of each curve family',
 'Tests check bilinearity and known answers for fixed points.',
 ['include/bn.h'], [('pairing', 'include/bn.h opt_atePairing, opt_atePairingJac'), ('precomputed loop', 'include/bn.h components::precomputeG2, millerLoop, millerLoop2')])
prop('C15', 'The final exponentiation raises to a fixed multiple of (p^12-1)/r',
 'For every nonzero element the final exponentiation equals raising it to (p^12-1)/r times a constant coprime to r, so its result always lies in the order-r subgroup and the same constant is used for every input.',
 ['inputs', 'configurations'], 'all nonzero elements of the degree-12 field, both curve families',
 'Tests see a few field elements; the exponent is only implied by known answers.',
 ['include/bn.h'], [('final exponentiation', 'include/bn.h Fp12T::final_exp, mapToCyclo, pow_neg_t, CompressT::fixed_power')])
prop('C16', 'Unsigned big-integer arithmetic, comparison, shifts and bit queries are exact',
 'For all unsigned big integers within the fixed capacity, addition, multiplication, comparison, shifting, bit length and bit tests return the exact mathematical result in canonical form, subtraction does so whenever the result is not negative and reports underflow otherwise, and results do not depend on aliasing.',
 ['inputs'], 'all operands whose size in words is within the stated bound and whose result fits the capacity',
 'Tests use fixed numbers and small random sizes; carry chains across all words, word-boundary shifts and equal-prefix comparisons are not covered.',
 ['include/zm.h', 'src/zm.cpp'], [('big-integer class', 'include/zm.h VuintT'), ('word primitives', 'src/zm.cpp in_*, generated add/sub/mul')])
prop('C17', 'Unsigned big integer division returns the exact quotient and remainder',
 'For every dividend and every nonzero divisor, division terminates and returns q and r with dividend = q * divisor + r and 0 <= r < divisor, in canonical form, for single-word and multi-word divisors alike.',
 ['inputs'], 'all dividends and divisors within the stated word bounds',
 'The quotient is estimated in floating point; the rounding direction matters only for rare leading words that random tests do not meet.',
 ['include/zm.h', 'src/zm.cpp'], [('estimate and correct division', 'include/zm.h VuintT::div, div1')])
prop('C18', 'Signed big integers follow integer arithmetic with floor division',
 'For all signed big integers, addition, subtraction, multiplication, negation and comparison are exact, and quotient and remainder follow the documented floor convention for all four sign combinations; zero has a single behaviour whatever sign produced it.',
 ['inputs'], 'all sign combinations, magnitudes within the stated word bound, every machine integer in the constructors',
 'Tests list a small table of sign combinations with small magnitudes.',
 ['include/zm.h'], [('signed integer class', 'include/zm.h VsintT')])
prop('C19', 'Modular integers stay reduced and form the ring of integers modulo m',
 'For every modulus and all operands, the modular integer class keeps its value in [0, m), and addition, subtraction, negation, multiplication and construction from integers agree with arithmetic modulo m; inversion returns the inverse of every unit.',
 ['inputs'], 'all moduli and operands within the stated word bound',
 'Tests use one or two moduli and few operands.',
 ['include/zm.h'], [('modular class', 'include/zm.h ZmZ')])
prop('C20', 'Text conversion round-trips and rejects malformed numbers',
 'Printing a number in decimal or hexadecimal and parsing it back returns the same number, and text that contains a character which is not a digit of its base is rejected with an error rather than being given a value.',
 ['inputs'], 'all strings up to the stated length and all numbers up to the stated size',
 'Tests parse a fixed list of strings.',
 ['include/zm.h', 'include/zm2.h'], [('parser and printer', 'include/zm.h VuintT::set, VuintT::toString')])
prop('C21', 'Loop parameters and signed-digit recodings represent the intended integers',
 'After initialisation the curve constants equal their defining polynomials in the curve parameter, and every binary or signed-digit expansion the library computes for an integer evaluates to that integer, with digits in {-1,0,1}.',
 ['inputs', 'configurations'], 'all integers up to the stated bit length; the built-in parameters of both curve families',
 'Tests recode a few fixed integers.',
 ['include/bn.h'], [('recoding', 'include/bn.h util::convertToBinary, convertToNAF, getGoodRepl'), ('parameter setup', 'include/bn.h ParamT::init')])
prop('C22', 'Exponentiation and square roots are exact',
 'Raising an element to any non-negative exponent gives the exact power (exponent zero gives one), for every exponent type; the base-field square root succeeds exactly on squares and returns a value whose square is the input, leaving the output untouched otherwise.',
 ['inputs'], 'all bases, all exponents up to the stated bit bound, all base-field elements',
 'Tests use a few exponents.',
 ['include/zm.h', 'include/zm2.h'], [('power', 'include/zm.h power'), ('square root', 'include/zm2.h Fp::squareRoot')])
prop('C23', 'The Java-facing wrapper classes behave as the underlying library',
 'Each operation of the wrapper classes exported to Java gives exactly the value that the wrapped library operation gives on the same operands, and a freshly constructed or cleared wrapper holds the neutral value.',
 ['inputs'], 'all operand values',
 'The Java tests run one fixed scenario.',
 ['java/bn254_if.hpp'], [('wrappers', 'java/bn254_if.hpp Mpz, Fp, Fp2, Fp12, Ec1, Ec2')])
prop('C24', 'Generated code touches only its outputs and preserves the calling convention',
 'Every routine the library generates at run time writes only the output object it is given (and its own stack frame), never modifies its inputs, the library tables or the code itself, restores all callee-saved registers and the stack pointer, and returns to its caller, for all inputs and in every mode.',
 ['inputs', 'configurations'], 'all operand values of every generated routine, every aliasing pattern of the pairing code, ' + ALLCFG,
 'A clobbered register or a store one word too far is visible only if the surrounding code happens to depend on it.',
 ['src/zm2.cpp', 'src/zm.cpp'], [('stack frames and register save/restore', 'src/zm2.cpp MakeStackFrame, storeReg/restoreReg'), ('code generation', 'src/zm2.cpp PairingCode, src/zm.cpp Code')])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
