// Exposes every arithmetic entry point of the library (run-time generated routines through their
// public function pointers, C++ operations through captureless lambdas) to the symbolic executor.
#include "drv.hpp"
#include "bn.h"
using namespace mie;
using namespace bn;
typedef bn::Fp2 Fp2; typedef bn::Fp6 Fp6; typedef bn::Fp12 Fp12;
typedef Fp::Dbl FpDbl; typedef Fp2::Dbl Fp2Dbl; typedef Fp6::Dbl Fp6Dbl; typedef Fp12::Dbl Fp12Dbl;
typedef bn::CompressT<Fp2> Compress;
#define P(x) ENT(#x, x)
// C++ wrapper: W("name", (params), body)
#define W(nm, params, body) ENT(nm, (+[] params -> uint64_t { body; return 0; }))
#define WB(nm, params, body) ENT(nm, (+[] params -> uint64_t { return (uint64_t)(body); }))
#include <new>

static void zm_entries()
{
	typedef mie::local::PrimitiveFunction Z;
	ENT("zm::addN", Z::addN); ENT("zm::add1", Z::add1); ENT("zm::subN", Z::subN); ENT("zm::mul1", Z::mul1); ENT("zm::div1", Z::div1); ENT("zm::mod1", Z::mod1);
}
static void reg_field()
{
	P(Fp::add); P(Fp::addNC); P(Fp::subNC); P(Fp::shr1); P(Fp::shr2); P(Fp::sub); P(Fp::neg); P(Fp::mul); P(Fp::preInv);
	P(FpDbl::add); P(FpDbl::addNC); P(FpDbl::neg); P(FpDbl::sub); P(FpDbl::subNC); P(FpDbl::mul); P(FpDbl::mod);
	P(Fp2::add); P(Fp2::addNC); P(Fp2::sub); P(Fp2::subNC); P(Fp2::mul); P(Fp2::mul_xi); P(Fp2::square); P(Fp2::mul_Fp_0); P(Fp2::divBy2);
	P(Fp2Dbl::add); P(Fp2Dbl::addNC); P(Fp2Dbl::neg); P(Fp2Dbl::sub); P(Fp2Dbl::subNC); P(Fp2Dbl::mulOpt1); P(Fp2Dbl::mulOpt2); P(Fp2Dbl::square); P(Fp2Dbl::mod); P(Fp2Dbl::mul_xi);
	P(Fp6::add); P(Fp6::sub); P(Fp6::mul); P(Fp6::pointDblLineEval); P(Fp6::pointDblLineEvalWithoutP); P(Fp6Dbl::mul);
	P(Compress::square_n); zm_entries(); P(Fp12::square); P(Fp12::mul); P(Fp12Dbl::mul_Fp2_024);
	// ---- Fp, C++ side
	W("c:Fp::divBy2", (Fp *z, const Fp *x), Fp::divBy2(*z, *x));
	W("c:Fp::divBy4", (Fp *z, const Fp *x), Fp::divBy4(*z, *x));
	W("c:Fp::square", (Fp *z, const Fp *x), Fp::square(*z, *x));
	W("c:Fp::inv", (Fp *z, const Fp *x), Fp::inv(*z, *x));
	W("c:Fp::inverse", (Fp *z), z->inverse());
	W("c:Fp::_3z_add_2xC", (Fp *z, const Fp *x), Fp::_3z_add_2xC(*z, *x));
	W("c:Fp::_2z_add_3x", (Fp *z, const Fp *x), Fp::_2z_add_3x(*z, *x));
	W("c:Fp::fast_modp", (Fp *z), Fp::fast_modp(*z));
	W("c:Fp::op+=", (Fp *z, const Fp *x), *z += *x);
	W("c:Fp::op-=", (Fp *z, const Fp *x), *z -= *x);
	W("c:Fp::op*=", (Fp *z, const Fp *x), *z *= *x);
	W("c:Fp::op+", (Fp *z, const Fp *x, const Fp *y), *z = *x + *y);
	W("c:Fp::op-", (Fp *z, const Fp *x, const Fp *y), *z = *x - *y);
	W("c:Fp::op*", (Fp *z, const Fp *x, const Fp *y), *z = *x * *y);
	W("c:Fp::op/", (Fp *z, const Fp *x, const Fp *y), *z = *x / *y);
	W("c:Fp::op/=", (Fp *z, const Fp *x), *z /= *x);
	W("c:Fp::opneg", (Fp *z, const Fp *x), *z = -*x);
	W("c:Fp::fromMont", (Fp *z, const Fp *x), Fp::fromMont(*z, *x));
	W("c:Fp::toMont", (Fp *z, const Fp *x), Fp::toMont(*z, *x));
	W("c:Fp::set_int", (Fp *z, int x), new(z) Fp(x));
	W("c:Fp::clear", (Fp *z), z->clear());
	WB("c:Fp::getLow", (const Fp *x), x->getLow());
	WB("c:Fp::isOdd", (const Fp *x), x->isOdd());
	WB("c:Fp::isZero", (const Fp *x), x->isZero());
	WB("c:Fp::op==", (const Fp *x, const Fp *y), *x == *y);
	WB("c:Fp::op!=", (const Fp *x, const Fp *y), *x != *y);
	WB("c:Fp::compare", (const Fp *x, const Fp *y), (int64_t)Fp::compare(*x, *y));
	WB("c:Fp::op==int", (const Fp *x, int y), *x == y);
	W("c:Fp::toMpz0", (Fp *z, const Fp *x), Fp::setDirect(*z, *x));
	W("c:Fp::get", (uint64_t *z, const Fp *x), mie::Vuint v = x->get(); z[4] = v.size(); for (size_t i = 0; i < v.size() && i < 4; i++) z[i] = v[i]);
	W("c:Fp::set_Vuint", (Fp *z, const uint64_t *v, uint64_t n), z->set(mie::Vuint(v, n)));
	// ---- FpDbl
	W("c:FpDbl::subOpt1", (FpDbl *z, const FpDbl *x, const FpDbl *y), FpDbl::subOpt1(*z, *x, *y));
	W("c:FpDbl::ctorFp", (FpDbl *z, const Fp *x), new(z) FpDbl(*x));
	W("c:FpDbl::op+=", (FpDbl *z, const FpDbl *x), *z += *x);
	W("c:FpDbl::op-=", (FpDbl *z, const FpDbl *x), *z -= *x);
	W("c:FpDbl::opneg", (FpDbl *z, const FpDbl *x), *z = -*x);
	WB("c:FpDbl::op==", (const FpDbl *x, const FpDbl *y), *x == *y);
	// ---- Fp2
	W("c:Fp2::addC", (Fp2 *z, const Fp2 *x, const Fp2 *y), Fp2::addC(*z, *x, *y));
	W("c:Fp2::addNC_C", (Fp2 *z, const Fp2 *x, const Fp2 *y), Fp2::addNC_C(*z, *x, *y));
	W("c:Fp2::subC", (Fp2 *z, const Fp2 *x, const Fp2 *y), Fp2::subC(*z, *x, *y));
	W("c:Fp2::subNC_C", (Fp2 *z, const Fp2 *x, const Fp2 *y), Fp2::subNC_C(*z, *x, *y));
	W("c:Fp2::neg", (Fp2 *z, const Fp2 *x), Fp2::neg(*z, *x));
	W("c:Fp2::mulC", (Fp2 *z, const Fp2 *x, const Fp2 *y), Fp2::mulC(*z, *x, *y));
	W("c:Fp2::squareC", (Fp2 *z, const Fp2 *x), Fp2::squareC(*z, *x));
	W("c:Fp2::mul_xiC", (Fp2 *z, const Fp2 *x), Fp2::mul_xiC(*z, *x));
	W("c:Fp2::divBy2C", (Fp2 *z, const Fp2 *x), Fp2::divBy2C(*z, *x));
	W("c:Fp2::divBy4", (Fp2 *z, const Fp2 *x), Fp2::divBy4(*z, *x));
	W("c:Fp2::mul_Fp_0C", (Fp2 *z, const Fp2 *x, const Fp *y), Fp2::mul_Fp_0C(*z, *x, *y));
	W("c:Fp2::mul_Fp_1", (Fp2 *z, const Fp *y), Fp2::mul_Fp_1(*z, *y));
	W("c:Fp2::mul_x", (Fp2 *z), z->mul_x());
	W("c:Fp2::inverse", (Fp2 *z), z->inverse());
	W("c:Fp2::clear", (Fp2 *z), z->clear());
	W("c:Fp2::set_int", (Fp2 *z, int x), new(z) Fp2(x));
	W("c:Fp2::op+=", (Fp2 *z, const Fp2 *x), *z += *x);
	W("c:Fp2::op-=", (Fp2 *z, const Fp2 *x), *z -= *x);
	W("c:Fp2::op*=", (Fp2 *z, const Fp2 *x), *z *= *x);
	W("c:Fp2::op+", (Fp2 *z, const Fp2 *x, const Fp2 *y), *z = *x + *y);
	W("c:Fp2::op-", (Fp2 *z, const Fp2 *x, const Fp2 *y), *z = *x - *y);
	W("c:Fp2::op*", (Fp2 *z, const Fp2 *x, const Fp2 *y), *z = *x * *y);
	W("c:Fp2::opneg", (Fp2 *z, const Fp2 *x), *z = -*x);
	WB("c:Fp2::isZero", (const Fp2 *x), x->isZero());
	WB("c:Fp2::op==", (const Fp2 *x, const Fp2 *y), *x == *y);
	WB("c:Fp2::op!=", (const Fp2 *x, const Fp2 *y), *x != *y);
	// ---- Fp2Dbl
	W("c:Fp2Dbl::addC", (Fp2Dbl *z, const Fp2Dbl *x, const Fp2Dbl *y), Fp2Dbl::addC(*z, *x, *y));
	W("c:Fp2Dbl::subC", (Fp2Dbl *z, const Fp2Dbl *x, const Fp2Dbl *y), Fp2Dbl::subC(*z, *x, *y));
	W("c:Fp2Dbl::addNC_C", (Fp2Dbl *z, const Fp2Dbl *x, const Fp2Dbl *y), Fp2Dbl::addNC_C(*z, *x, *y));
	W("c:Fp2Dbl::subNC_C", (Fp2Dbl *z, const Fp2Dbl *x, const Fp2Dbl *y), Fp2Dbl::subNC_C(*z, *x, *y));
	W("c:Fp2Dbl::negC", (Fp2Dbl *z, const Fp2Dbl *x), Fp2Dbl::negC(*z, *x));
	W("c:Fp2Dbl::mul_xiC", (Fp2Dbl *z, const Fp2Dbl *x), Fp2Dbl::mul_xiC(*z, *x));
	W("c:Fp2Dbl::mulOpt1C", (Fp2Dbl *z, const Fp2 *x, const Fp2 *y), Fp2Dbl::mulOpt1C(*z, *x, *y));
	W("c:Fp2Dbl::mulOpt2C", (Fp2Dbl *z, const Fp2 *x, const Fp2 *y), Fp2Dbl::mulOpt2C(*z, *x, *y));
	W("c:Fp2Dbl::squareC", (Fp2Dbl *z, const Fp2 *x), Fp2Dbl::squareC(*z, *x));
	W("c:Fp2Dbl::modC", (Fp2 *z, const Fp2Dbl *x), Fp2Dbl::modC(*z, *x));
	W("c:Fp2Dbl::ctorFp2", (Fp2Dbl *z, const Fp2 *x), new(z) Fp2Dbl(*x));
	// ---- Fp6
	W("c:Fp6::addC", (Fp6 *z, const Fp6 *x, const Fp6 *y), Fp6::addC(*z, *x, *y));
	W("c:Fp6::subC", (Fp6 *z, const Fp6 *x, const Fp6 *y), Fp6::subC(*z, *x, *y));
	W("c:Fp6::neg", (Fp6 *z, const Fp6 *x), Fp6::neg(*z, *x));
	W("c:Fp6::mulC", (Fp6 *z, const Fp6 *x, const Fp6 *y), Fp6::mulC(*z, *x, *y));
	W("c:Fp6::square", (Fp6 *z, const Fp6 *x), Fp6::square(*z, *x));
	W("c:Fp6::inverse", (Fp6 *z), z->inverse());
	W("c:Fp6::mul_Fp_b", (Fp6 *z, const Fp *x), Fp6::mul_Fp_b(*z, *x));
	W("c:Fp6::mul_Fp_c", (Fp6 *z, const Fp *x), Fp6::mul_Fp_c(*z, *x));
	W("c:Fp6::mulFp6_24_Fp_01", (Fp6 *z, const Fp *x), Fp6::mulFp6_24_Fp_01(*z, x));
	W("c:Fp6::set_int", (Fp6 *z, int x), new(z) Fp6(x));
	W("c:Fp6::op*=", (Fp6 *z, const Fp6 *x), *z *= *x);
	W("c:Fp6::op+=", (Fp6 *z, const Fp6 *x), *z += *x);
	W("c:Fp6::op-=", (Fp6 *z, const Fp6 *x), *z -= *x);
	W("c:Fp6::opneg", (Fp6 *z, const Fp6 *x), *z = -*x);
	W("c:Fp6Dbl::mulC", (Fp6Dbl *z, const Fp6 *x, const Fp6 *y), Fp6Dbl::mulC(*z, *x, *y));
	W("c:Fp6Dbl::mod", (Fp6 *z, const Fp6Dbl *x), Fp6Dbl::mod(*z, *x));
	W("c:Fp6Dbl::add", (Fp6Dbl *z, const Fp6Dbl *x, const Fp6Dbl *y), Fp6Dbl::add(*z, *x, *y));
	W("c:Fp6Dbl::sub", (Fp6Dbl *z, const Fp6Dbl *x, const Fp6Dbl *y), Fp6Dbl::sub(*z, *x, *y));
	W("c:Fp6Dbl::neg", (Fp6Dbl *z, const Fp6Dbl *x), Fp6Dbl::neg(*z, *x));
	WB("c:Fp6::isZero", (const Fp6 *x), x->isZero());
	WB("c:Fp6::op==", (const Fp6 *x, const Fp6 *y), *x == *y);
	W("c:Fp6::pointDblLineEvalC", (Fp6 *l, Fp2 *R, const Fp *Q), Fp6::pointDblLineEvalC(*l, R, Q));
	W("c:Fp6::pointDblLineEvalWithoutPC", (Fp6 *l, Fp2 *R), Fp6::pointDblLineEvalWithoutPC(*l, R));
	W("c:Fp6::pointAddLineEval", (Fp6 *l, Fp2 *R, const Fp2 *Q, const Fp *PP), Fp6::pointAddLineEval(*l, R, Q, PP));
	W("c:Fp6::pointAddLineEvalWithoutP", (Fp6 *l, Fp2 *R, const Fp2 *Q), Fp6::pointAddLineEvalWithoutP(*l, R, Q));
	// ---- Fp12
	W("c:Fp12::add", (Fp12 *z, const Fp12 *x, const Fp12 *y), Fp12::add(*z, *x, *y));
	W("c:Fp12::sub", (Fp12 *z, const Fp12 *x, const Fp12 *y), Fp12::sub(*z, *x, *y));
	W("c:Fp12::neg", (Fp12 *z, const Fp12 *x), Fp12::neg(*z, *x));
	W("c:Fp12::mulC", (Fp12 *z, const Fp12 *x, const Fp12 *y), Fp12::mulC(*z, *x, *y));
	W("c:Fp12::squareC", (Fp12 *z), Fp12::squareC(*z));
	W("c:Fp12::inverse", (Fp12 *z), z->inverse());
	W("c:Fp12::op*=", (Fp12 *z, const Fp12 *x), *z *= *x);
	W("c:Fp12::op*", (Fp12 *z, const Fp12 *x, const Fp12 *y), *z = *x * *y);
	W("c:Fp12::op+=", (Fp12 *z, const Fp12 *x), *z += *x);
	W("c:Fp12::op-=", (Fp12 *z, const Fp12 *x), *z -= *x);
	W("c:Fp12::set_int", (Fp12 *z, int x), new(z) Fp12(x));
	WB("c:Fp12::isZero", (const Fp12 *x), x->isZero());
	WB("c:Fp12::op==", (const Fp12 *x, const Fp12 *y), *x == *y);
	W("c:Fp12Dbl::mul_Fp2_024C", (Fp12 *z, const Fp6 *x), Fp12Dbl::mul_Fp2_024C(*z, *x));
	W("c:Fp12Dbl::mul_Fp2_024_Fp2_024", (Fp12 *z, const Fp6 *x, const Fp6 *y), Fp12Dbl::mul_Fp2_024_Fp2_024(*z, *x, *y));
	W("c:Fp12::sqru", (Fp12 *z), z->sqru());
	W("c:Fp12::sqru2", (Fp12 *z, const Fp12 *x), x->sqru(*z));
	W("c:Fp12::Frobenius", (Fp12 *z, const Fp12 *x), x->Frobenius(*z));
	W("c:Fp12::Frobenius2", (Fp12 *z, const Fp12 *x), x->Frobenius2(*z));
	W("c:Fp12::Frobenius3", (Fp12 *z, const Fp12 *x), x->Frobenius3(*z));
	W("c:Fp12::mapToCyclo", (Fp12 *z, Fp12 *x), x->mapToCyclo(*z));
	W("c:Fp12::final_exp", (Fp12 *z), z->final_exp());
#ifdef BN_SUPPORT_SNARK
	W("c:Fp12::pow_neg_t", (Fp12 *z, const Fp12 *x), Fp12::pow_neg_t(*z, *x));
#endif
	W("c:Compress::fixed_power", (Fp12 *z, const Fp12 *x), Compress::fixed_power(*z, *x));
	W("c:Compress::square_n", (Fp12 *z, const Fp12 *x, int n), Compress c(*z, *x); Compress::square_n(c, n));
	W("c:Compress::squareC", (Fp12 *z, const Fp12 *x), Compress c(*z, *x); Compress::squareC(c));
	W("c:Compress::square_nC", (Fp12 *z, const Fp12 *x, int n), Compress c(*z, *x); Compress::square_nC(c, n));
	W("c:Compress::decompress", (Fp12 *z, const Fp12 *x), Compress c(*z, *x); c.decompress());
	W("c:Compress::sq_dec", (Fp12 *z, const Fp12 *x, int n), Compress c(*z, *x); Compress::square_n(c, n); c.decompress());
}
#define EC(NM, FF, EcX) \
	W("c:" NM "::dbl", (EcX *z, const EcX *x), EcX::dbl(*z, *x)); \
	W("c:" NM "::add", (EcX *z, const EcX *x, const EcX *y), EcX::add(*z, *x, *y)); \
	W("c:" NM "::sub", (EcX *z, const EcX *x, const EcX *y), EcX::sub(*z, *x, *y)); \
	W("c:" NM "::neg", (EcX *z, const EcX *x), EcX::neg(*z, *x)); \
	W("c:" NM "::op+", (EcX *z, const EcX *x, const EcX *y), *z = *x + *y); \
	W("c:" NM "::op-", (EcX *z, const EcX *x, const EcX *y), *z = *x - *y); \
	W("c:" NM "::op+=", (EcX *z, const EcX *x), *z += *x); \
	W("c:" NM "::op-=", (EcX *z, const EcX *x), *z -= *x); \
	W("c:" NM "::normalize", (EcX *z), z->normalize()); \
	W("c:" NM "::clear", (EcX *z), z->clear()); \
	WB("c:" NM "::isZero", (const EcX *x), x->isZero()); \
	WB("c:" NM "::isValid", (const EcX *x), x->isValid()); \
	WB("c:" NM "::op==", (const EcX *x, const EcX *y), *x == *y); \
	WB("c:" NM "::op!=", (const EcX *x, const EcX *y), *x != *y); \
	W("c:" NM "::set2", (EcX *z, const FF *x, const FF *y), z->set(*x, *y)); \
	W("c:" NM "::set3", (EcX *z, const FF *x, const FF *y, const FF *w), z->set(*x, *y, *w)); \
	W("c:" NM "::set2nv", (EcX *z, const FF *x, const FF *y), z->set(*x, *y, false)); \
	W("c:" NM "::NormalizeJac", (EcX *z, const EcX *x), ecop::NormalizeJac(z->p, x->p)); \
	W("c:" NM "::NormalizeHom", (EcX *z, const EcX *x), ecop::NormalizeHom(z->p, x->p)); \
	W("c:" NM "::mul_int", (EcX *z, const EcX *x, int n), EcX::mul(*z, *x, n)); \
	W("c:" NM "::mul_u64", (EcX *z, const EcX *x, const uint64_t *n, uint64_t k), mie::Vuint v; v.set(n, k); EcX::mul(*z, *x, v)); \
	W("c:" NM "::mul_sizet", (EcX *z, const EcX *x, size_t n), EcX::mul(*z, *x, n)); \
	W("c:" NM "::mul_mpz", (EcX *z, const EcX *x, const mpz_class *n), EcX::mul(*z, *x, *n));

#define POW(NM, T) \
	W("c:power::" NM "_int", (T *z, const T *x, int n), *z = mie::power(*x, n)); \
	W("c:power::" NM "_sizet", (T *z, const T *x, size_t n), *z = mie::power(*x, n)); \
	W("c:power::" NM "_u64", (T *z, const T *x, const uint64_t *n, uint64_t k), mie::Vuint v; v.set(n, k); *z = mie::power(*x, v)); \
	W("c:power::" NM "_mpz", (T *z, const T *x, const mpz_class *n), *z = mie::power(*x, *n));
static void reg_power()
{
	POW("Fp", Fp)
	POW("Fp2", Fp2)
	POW("Fp12", Fp12)
	WB("c:Fp::squareRoot", (Fp *z, const Fp *x), Fp::squareRoot(*z, *x));
}
static void reg_ec()
{
	typedef bn::Ec1 Ec1; typedef bn::Ec2 Ec2;
#ifndef NO_SCALAR
	EC("Ec1", Fp, Ec1)
	EC("Ec2", Fp2, Ec2)
#endif
	WB("c:Ec1::isOnHom2", (const Fp *x), ecop::isOnECHom2(x));
	WB("c:Ec1::isOnHom3", (const Fp *x), ecop::isOnECHom3(x));
	WB("c:Ec2::isOnHom2", (const Fp2 *x), ecop::isOnTwistECHom2(x));
	WB("c:Ec2::isOnHom3", (const Fp2 *x), ecop::isOnTwistECHom3(x));
	W("c:Frob1", (Fp2 *z, const Fp2 *x), ecop::FrobEndOnTwist_1(z, x));
	W("c:Frob2", (Fp2 *z, const Fp2 *x), ecop::FrobEndOnTwist_2(z, x));
	W("c:Frob8", (Fp2 *z, const Fp2 *x), ecop::FrobEndOnTwist_8(z, x));
	W("c:pairing", (Fp12 *f, const Fp2 *Q, const Fp *PP), opt_atePairing<Fp>(*f, Q, PP));
	W("c:pairingJac", (Fp12 *f, const Fp2 *Q, const Fp *PP), opt_atePairingJac<Fp>(*f, Q, PP));
	W("c:pairingEc", (Fp12 *f, const Ec2 *Q, const Ec1 *PP), opt_atePairing(*f, *Q, *PP));
	// precompute into / run from a caller-provided array of coefficients
	W("c:precomputeG2", (Fp6 *out, Fp2 *Q, const Fp2 *inQ, uint64_t *n), std::vector<Fp6> c; components::precomputeG2(c, Q, inQ); *n = c.size(); memcpy((void*)out, (void*)&c[0], c.size() * sizeof(Fp6)));
	W("c:millerLoop", (Fp12 *f, const Fp6 *c, uint64_t n, const Fp *PP), std::vector<Fp6> v(c, c + n); components::millerLoop(*f, v, PP));
	W("c:millerLoop2", (Fp12 *f, const Fp6 *c1, const Fp *P1, const Fp6 *c2, const Fp *P2, uint64_t n), std::vector<Fp6> v1(c1, c1 + n); std::vector<Fp6> v2(c2, c2 + n); components::millerLoop2(*f, v1, P1, v2, P2));
	SYM("Param::b", &Param::b, sizeof(Param::b));
	SYM("Param::b_invxi", &Param::b_invxi, sizeof(Param::b_invxi));
	SYM("Param::half", &Param::half, sizeof(Param::half));
	SYM("Param::Z", &Param::Z, sizeof(Param::Z));
	SYM("Param::W2p", &Param::W2p, sizeof(Param::W2p));
	SYM("Param::W3p", &Param::W3p, sizeof(Param::W3p));
	SYM("Param::gammar", &Param::gammar, sizeof(Param::gammar));
	SYM("Param::gammar2", &Param::gammar2, sizeof(Param::gammar2));
	SYM("Param::gammar3", &Param::gammar3, sizeof(Param::gammar3));
	SYM("Param::i0", &Param::i0, sizeof(Param::i0));
	SYM("Param::i1", &Param::i1, sizeof(Param::i1));
	SYM("Param::siTbl", Param::siTbl.data(), Param::siTbl.size() * sizeof(Param::siTbl[0]));
#ifdef BN_SUPPORT_SNARK
	SYM("Param::zReplTbl", Param::zReplTbl.data(), Param::zReplTbl.size());
#endif
	SYM("Param::useNAF", &Param::useNAF, 1);
}
static void reg_tables()
{
	static uint64_t* pn[1];
	(void)pn;
	SYM("halfTbl", Fp::halfTbl_, 2 * sizeof(Fp));
	SYM("pNTbl", FpDbl::pNTbl_, 4 * sizeof(FpDbl));
	static std::string dump;
	auto put = [&](const char *nm, const mie::Vsint& v) { dump += nm; dump += v.isNegative() ? " -" : " "; dump += v.abs().toString(16); dump += "\n"; };
	put("p", Param::p); put("r", Param::r); put("t", Param::t); put("z", Param::z); put("largest_c", Param::largest_c);
	dump += "R "; dump += Fp::getMontgomeryR().toString(16); dump += "\n";
	SYM("constants", dump.data(), dump.size());
}
// a vector of digits that reports every access outside its size
extern "C" __attribute__((noreturn, noinline)) void fv_trap() { g_sig = 98; siglongjmp(g_jb, 1); }
struct FV {
	int64_t n;
	int64_t d[640];
	FV() : n(0) {}
	FV(const FV& o) { fv_copy(this, &o); }
	FV& operator=(const FV& o) { fv_copy(this, &o); return *this; }
	static __attribute__((noinline)) void fv_copy(FV *z, const FV *x) { z->n = x->n; for (int64_t i = 0; i < x->n; i++) z->d[i] = x->d[i]; }
	size_t size() const { return n; }
	void clear() { n = 0; }
	void push_back(int64_t v) { if (n >= 640) fv_trap(); d[n++] = v; }
	int64_t& operator[](size_t i) { if (i >= (size_t)n) fv_trap(); return d[i]; }
	const int64_t& operator[](size_t i) const { if (i >= (size_t)n) fv_trap(); return d[i]; }
	void swap(FV& o) { FV t; fv_copy(&t, this); fv_copy(this, &o); fv_copy(&o, &t); }
};
static void out_sv(FV *v, const std::vector<signed char>& t) { v->n = t.size(); for (size_t i = 0; i < t.size() && i < 640; i++) v->d[i] = t[i]; }
static void naf_sv(FV *v, const FV *in) { std::vector<signed char> a(in->d, in->d + in->n); std::vector<signed char> b; bn::util::convertToNAF(b, a); out_sv(v, b); }
static bool good_sv(FV *v, const mie::Vuint *x) { std::vector<signed char> b; bool r = bn::util::getGoodRepl(b, *x); out_sv(v, b); return r; }
static void reg_util()
{
	W("u:bin", (FV *v, const mie::Vuint *x), bn::util::convertToBinary(*v, *x));
	W("u:naf", (FV *v, const FV *in), bn::util::convertToNAF(*v, *in));
	WB("u:good", (FV *v, const mie::Vuint *x), bn::util::getGoodRepl(*v, *x));
	WB("u:run", (const FV *v, size_t pos, int val), bn::util::getContinuousVal(*v, pos, val));
	WB("u:weight", (const FV *v), bn::util::getNumOfNonZeroElement(*v));
	W("u:naf_sv", (FV *v, const FV *in), naf_sv(v, in));
	WB("u:good_sv", (FV *v, const mie::Vuint *x), good_sv(v, x));
}
#ifdef JAVA_WRAP
static void reg_java();
#endif
int main(int argc, char **argv)
{
	int mode = argc > 1 ? atoi(argv[1]) : -1;
	bool mulx = argc > 2 ? atoi(argv[2]) != 0 : true;
	int b = argc > 3 ? atoi(argv[3]) : 0;
#ifdef BN_SUPPORT_SNARK
	if (b == 82) { bn::CurveParam cp = bn::CurveSNARK2; Param::init(cp, mode, mulx); }
	else { bn::CurveParam cp = bn::CurveSNARK1; Param::init(cp, mode, mulx); }
#else
	(void)b;
	bn::CurveParam cp = bn::CurveFp254BNb; Param::init(cp, mode, mulx);
#endif
	reg_field();
	reg_ec();
	reg_power();
	reg_util();
	reg_tables();
#ifdef JAVA_WRAP
	reg_java();
#endif
	return serve();
}
