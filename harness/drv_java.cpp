// The classes offered to Java, exposed under the entry names of the operations they wrap, so that the same
// specifications decide them.
#include <bits/stdc++.h>
#include <gmpxx.h>
#define JAVA_WRAP
#include "drv_bn.cpp"
namespace J {
#include "bn254_if.hpp"
}
#define JOPS(NM) \
	W("c:" #NM "::op+=", (J::NM *z, const J::NM *x), z->add(*x)); \
	W("c:" #NM "::op-=", (J::NM *z, const J::NM *x), z->sub(*x)); \
	WB("c:" #NM "::op==", (const J::NM *x, const J::NM *y), x->equals(*y)); \
	W("j:" #NM "::copy", (J::NM *z, const J::NM *x), new(z) J::NM(*x));
#define JFLD(NM) JOPS(NM) \
	W("c:" #NM "::op*=", (J::NM *z, const J::NM *x), z->mul(*x)); \
	W("c:power::" #NM "_mpz", (J::NM *z, const J::NM *x, const J::Mpz *n), *z = *x; z->power(*n)); \
	W("c:" #NM "::set_int", (J::NM *z, int x), new(z) J::NM(x));
#define JEC(NM, FF) JOPS(NM) \
	W("c:" #NM "::dbl", (J::NM *z, const J::NM *x), *z = *x; z->dbl()); \
	W("c:" #NM "::neg", (J::NM *z, const J::NM *x), *z = *x; z->neg()); \
	W("c:" #NM "::mul_mpz", (J::NM *z, const J::NM *x, const J::Mpz *n), *z = *x; z->mul(*n)); \
	W("c:" #NM "::clear", (J::NM *z), z->clear()); \
	W("j:" #NM "::ctor", (J::NM *z), new(z) J::NM()); \
	WB("c:" #NM "::isZero", (const J::NM *x), x->isZero()); \
	WB("c:" #NM "::isValid", (const J::NM *x), x->isValid()); \
	W("c:" #NM "::set2", (J::NM *z, const J::FF *x, const J::FF *y), z->set(*x, *y)); \
	W("c:" #NM "::set3", (J::NM *z, const J::FF *x, const J::FF *y, const J::FF *w), z->set(*x, *y, *w)); \
	W("j:" #NM "::ctor2", (J::NM *z, const J::FF *x, const J::FF *y), new(z) J::NM(*x, *y)); \
	W("j:" #NM "::ctor3", (J::NM *z, const J::FF *x, const J::FF *y, const J::FF *w), new(z) J::NM(*x, *y, *w)); \
	WB("j:" #NM "::getX", (J::NM *x), &x->getX()); \
	WB("j:" #NM "::getY", (J::NM *x), &x->getY()); \
	WB("j:" #NM "::getZ", (J::NM *x), &x->getZ());
static void reg_java()
{
	JFLD(Fp) JFLD(Fp2) JFLD(Fp12)
	JEC(Ec1, Fp) JEC(Ec2, Fp2)
	W("j:Fp::set", (J::Fp *z, int x), z->set(x));
	W("j:Fp2::ctor_ii", (J::Fp2 *z, int x, int y), new(z) J::Fp2(x, y));
	W("j:Fp2::ctor_ff", (J::Fp2 *z, const J::Fp *x, const J::Fp *y), new(z) J::Fp2(*x, *y));
	WB("j:Fp2::getA", (J::Fp2 *x), &x->getA());
	WB("j:Fp2::getB", (J::Fp2 *x), &x->getB());
	W("c:pairingEc", (J::Fp12 *f, const J::Ec2 *Q, const J::Ec1 *PP), f->pairing(*Q, *PP));
	W("j:Mpz::ctor_int", (J::Mpz *z, int x), new(z) J::Mpz(x));
	W("j:Mpz::set", (J::Mpz *z, int x), z->set(x));
	W("j:Mpz::copy", (J::Mpz *z, const J::Mpz *x), new(z) J::Mpz(*x));
	W("j:Mpz::add", (J::Mpz *z, const J::Mpz *x), z->add(*x));
	W("j:Mpz::sub", (J::Mpz *z, const J::Mpz *x), z->sub(*x));
	W("j:Mpz::mul", (J::Mpz *z, const J::Mpz *x), z->mul(*x));
	W("j:Mpz::mod", (J::Mpz *z, const J::Mpz *x), z->mod(*x));
	WB("j:Mpz::equals", (const J::Mpz *x, const J::Mpz *y), x->equals(*y));
	WB("j:Mpz::compareTo", (const J::Mpz *x, const J::Mpz *y), (int64_t)x->compareTo(*y));
	WB("j:GetParamR", (), &J::GetParamR());
	static std::string dump; dump = reinterpret_cast<const mpz_class&>(J::GetParamR()).get_str(16); SYM("javaR", dump.data(), dump.size());
}
