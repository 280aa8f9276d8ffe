"""property id -> (module, settings)"""
import importlib
MC = 'model_checking'
LIMB = 'symbolic execution of the generated/compiled x86-64 code; z3 decides carries, ranges and the final identities'
LIMBN = ('Every path of every listed routine, for all operand values in the stated ranges: each output is proved equal to its specification modulo p and inside its range. '
         'Trusted: the instruction model, objdump, z3, and the dumped process image being the state callers see. An obligation the solver cannot decide is listed as undecided in the evidence and does not alarm.')
RING = 'symbolic execution of the compiled point code over an arbitrary field (base operations by their decided specifications); case splits on zero tests; polynomial identities decided by normal form and z3'
RINGN = ('Every path of every listed function for all points, all scalings and all exceptional cases; outputs are proved projectively equal to the group-law result (or exactly equal where the representative is unique). '
         'Assumes the field-operation specifications decided in C01-C06 and the instruction model. Undecided obligations are listed in the evidence and do not alarm.')
EXP = 'symbolic execution of the compiled exponentiation on a generic group element (exponents tracked exactly); the final congruence decided by z3'
EXPN = ('Every path, for every nonzero element; the operations of F_p12 act on exponents as decided in C07-C09. The exponent is the exact integer modulo p^12-1, so nothing is sampled.')
PAIR = 'symbolic execution of the compiled pairing code on generic points, tracking divisors modulo vertical lines; equality of the final divisor decided by z3'
PAIRN = ('Every path of each entry point for generic points of order r and every kind of representation. The divisor of the Miller value is compared with that of the optimal ate function. '
         'Line steps, multiplications, Frobenius maps, normalisation and the final exponentiation are used as decided in C07, C09, C12, C13, C15.')
BITS = 'symbolic execution of the compiled code on a scalar whose bits are symbolic, merging both sides of every branch on a bit; the resulting multiple (a polynomial over the bits) compared with the scalar by z3'
BITN = ('All scalars with a given leading bit are decided at once; the leading bit and the number of words are the enumerated shapes. The group operations act as decided in C10.')
FRAME = 'abstract interpretation of the generated machine code with opaque operands and symbolic object addresses; store containment and register preservation decided by z3'
FRAMEN = ('Every path of every generated routine with operand words left arbitrary (both sides of each operand-dependent branch, joined at loops), all aliasing patterns, all code-generation modes. '
          'Trusted: the instruction model, objdump, z3.')
VU = 'symbolic execution of the compiled big-integer routines (portable and run-time generated word primitives) on words that are bit vectors, both sides of a data-dependent branch merged at their join point; z3 decides for every operand that the result is the canonical form of the exact sum, difference, shift, comparison or bit count, and double arithmetic with the theory of floating point; products as exact integer identities over the words with the remaining carries decided by linear arithmetic'
VUN = 'sizes are enumerated, words are symbolic; addN inside a product is replaced by its contract, which is an obligation of its own'
VD = 'symbolic execution of the compiled division: the floating-point estimate of a divisor decided by z3 over bit vectors and IEEE doubles for every leading words; one iteration of the quotient loop from an arbitrary state of its invariant (inductive step: digit never too large, no borrow, no overflow of the quotient word, progress) with the inequalities decided by linear arithmetic; div1, mod1 and the operators as exact integer identities X = Q Y + R, R < Y over symbolic words'
VDN = 'induction over the iterations: any number of them, word counts enumerated up to 9; the rounded quotient of two doubles is described by its error bound (1 + 2^-53), proved against the estimate by one nonlinear real query; within the operators the loop is replaced by its contract'
ZI = 'symbolic execution of the compiled %s on symbolic words, with sizes, stored signs and aliasing enumerated; word primitives and the quotient loop are replaced by their contracts (obligations of C16 and C17); %s, decided by z3 in linear integer and real arithmetic; constructors, shifts and sign tests on bit vectors'
ZIN = 'division follows the floor convention of Python in every sign combination; products of symbolic words are kept as monomials, so the arithmetic queries are linear and exact; counterexamples are replayed on the compiled code'
INV = 'symbolic execution of the generated inversion code over bit vectors with the loop cut at its head: z3 shows that one iteration from an arbitrary state is one of the four steps of the binary algorithm without overflow, and decides the integer lemmas of the induction; wrappers executed with the inversion loop and the multiplication replaced by their contracts'
INVN = 'any number of iterations; the composition of the lemmas over the iterations is the induction principle, and that p is prime is tested; Fp::mul is used through its contract (C02)'
UT = 'symbolic execution of the recoding templates over digit vectors with checked accesses: z3 shows that each round from an arbitrary state keeps the value and the digit set (induction over rounds); the constants of the initialised process are decided against their defining formulas'
UTN = 'digit vectors up to the stated size; the rounds are inductive; the constants are checked for every built-in parameter and code mode, so the enumeration is exhaustive'
JAVA = 'symbolic execution of the compiled wrapper methods with the specifications of the wrapped operations (field values, group law, multiples, exponents, divisors) and of the GMP functions; z3 decides equality of the results for every operand'
JAVAN = 'operations below the wrappers are used through the specifications decided in C01-C15 and C22; GMP through its documentation; methods on strings and the generated glue are outside'
REG = {
    'C23': ('c_java', dict(level=MC, technique=JAVA, note=JAVAN)),
    'C21': ('c_util', dict(level=MC, technique=UT, note=UTN)),
    'C18': ('c_zint', dict(level=MC, technique=ZI % ('signed operations', 'sum, product, floor quotient and remainder, order'), note=ZIN)),
    'C19': ('c_zint', dict(level=MC, technique=ZI % ('modular operations', 'result congruent to the exact one and below the modulus; the inversion loop by an inductive step over its congruences'), note=ZIN.split(';', 1)[1].strip())),
    'C01': ('c_field+c_basic', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C02': ('c_field+c_basic', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C03': ('c_inv', dict(level=MC, technique=INV, note=INVN)),
    'C04': ('c_field+c_basic', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C05': ('c_field+c_ring+c_basic', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C06': ('c_field+c_ring+c_basic', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C07': ('c_field+c_ring+c_basic', dict(level=MC, technique=LIMB, note=LIMBN, per=(120, 3000))),
    'C08': ('c_field+c_ring', dict(level=MC, technique=LIMB, note=LIMBN)),
    'C09': ('c_ring', dict(level=MC, technique=RING, note=RINGN)),
    'C10': ('c_curve', dict(level=MC, technique=RING, note=RINGN)),
    'C11': ('c_mul', dict(level=MC, technique=BITS, note=BITN)),
    'C12': ('c_curve+c_basic', dict(level=MC, technique=RING, note=RINGN)),
    'C13': ('c_line', dict(level=MC, technique=LIMB, note=LIMBN, per=(60, 3000))),
    'C22': ('c_power', dict(level=MC, technique=BITS.replace('multiple', 'exponent').replace('the scalar by', 'the given one by'), note=BITN.replace('group operations', 'multiplications').replace('C10', 'C02, C05 and C07'))),
    'C15': ('c_exp', dict(level=MC, technique=EXP, note=EXPN)),
    'C16': ('c_vuint', dict(level=MC, technique=VU, note=VUN)),
    'C17': ('c_vdiv', dict(level=MC, technique=VD, note=VDN)),
    'C24': ('c_frame', dict(level=MC, technique=FRAME, note=FRAMEN)),
    'C14': ('c_pair', dict(level=MC, technique=PAIR, note=PAIRN)),
}
NA = {'C20': 'text goes through C++ streams, std::string and strtoul of the system libraries, whose code is not part of this repository and is not encoded; no solver verdict on the parser alone would decide the statement'}
def load(prop):
    m, meta = REG[prop]
    ms = [importlib.import_module(x) for x in m.split('+')]
    if len(ms) == 1: return ms[0], meta
    class Multi:
        @staticmethod
        def obligations(prop, ctx):
            obs = []; info = dict(bounds=[], outside=[], assumptions=[])
            for x in ms:
                o, i = x.obligations(prop, ctx); obs += o
                for k in ('bounds', 'outside'):
                    if i.get(k): info[k].append(i[k])
                info['assumptions'] += [a for a in i.get('assumptions', []) if a not in info['assumptions']]
            info['bounds'] = ' | '.join(info['bounds']); info['outside'] = ' | '.join(info['outside'])
            return obs, info
    return Multi, meta
