// driver for the big-integer classes; argv[1]: 0 portable primitives, 1 generated primitives
#include "drv.hpp"
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <iostream>
#include <vector>
#include <string>
#include <algorithm>
extern "C" void drv_exit(int) __attribute__((noreturn));
extern "C" int drv_print(const char *, ...);
#define exit drv_exit
#define printf drv_print
#include "zm.h"
#undef exit
#undef printf
extern "C" int drv_print(const char *, ...) { return 0; }
extern "C" void drv_exit(int) { g_sig = 99; siglongjmp(g_jb, 1); }
#include <new>
#define W(nm, params, body) ENT(nm, (+[] params -> uint64_t { body; return 0; }))
#define WB(nm, params, body) ENT(nm, (+[] params -> uint64_t { return (uint64_t)(body); }))
typedef mie::Vuint V;
typedef mie::Vsint S;
typedef mie::ZmZ<> Zn;

static void reg_vuint()
{
	W("V::add", (V *z, const V *x, const V *y), V::add(*z, *x, *y));
	W("V::add32", (V *z, const V *x, uint32_t y), V::add(*z, *x, y));
	W("V::sub", (V *z, const V *x, const V *y), V::sub(*z, *x, *y));
	W("V::mul", (V *z, const V *x, const V *y), V::mul(*z, *x, *y));
	W("V::mul1", (V *z, const V *x, uint64_t y), V::mul1(*z, *x, y));
	W("V::+=", (V *z, const V *x), *z += *x);
	W("V::+=32", (V *z, uint32_t x), *z += x);
	W("V::-=", (V *z, const V *x), *z -= *x);
	W("V::*=", (V *z, const V *x), *z *= *x);
	W("V::+", (V *z, const V *x, const V *y), *z = *x + *y);
	W("V::-", (V *z, const V *x, const V *y), *z = *x - *y);
	W("V::*", (V *z, const V *x, const V *y), *z = *x * *y);
	WB("V::compare", (const V *x, const V *y), (int64_t)V::compare(*x, *y));
	WB("V::<", (const V *x, const V *y), *x < *y);
	WB("V::<=", (const V *x, const V *y), *x <= *y);
	WB("V::>", (const V *x, const V *y), *x > *y);
	WB("V::>=", (const V *x, const V *y), *x >= *y);
	WB("V::==", (const V *x, const V *y), *x == *y);
	WB("V::!=", (const V *x, const V *y), *x != *y);
	W("V::shl", (V *z, const V *x, size_t n), V::shl(*z, *x, n));
	W("V::shr", (V *z, const V *x, size_t n), V::shr(*z, *x, n));
	W("V::<<", (V *z, const V *x, size_t n), *z = *x << n);
	W("V::>>", (V *z, const V *x, size_t n), *z = *x >> n);
	W("V::<<=", (V *z, size_t n), *z <<= n);
	W("V::>>=", (V *z, size_t n), *z >>= n);
	WB("V::bitLen", (const V *x), x->bitLen());
	WB("V::testBit", (const V *x, size_t i), x->testBit(i));
	WB("V::isZero", (const V *x), x->isZero());
	WB("V::at", (const V *x, size_t i), x->getAtWithCheck(i));
	W("V::copy", (V *z, const V *x), *z = *x);
	W("V::copyctor", (V *z, const V *x), new(z) V(*x));
	W("V::ctor", (V *z, uint64_t x), new(z) V(x));
	W("V::set", (V *z, uint64_t x), z->set(x));
	W("V::set32", (V *z, const uint32_t *x, size_t n), z->set(x, n));
	W("V::set64", (V *z, const uint64_t *x, size_t n), z->set(x, n));
	W("V::clear", (V *z), z->clear());
	WB("V::div1", (V *q, const V *x, uint64_t y), V::div1(q, *x, y));
	WB("V::mod1", (const V *x, uint64_t y), V::div1(0, *x, y));
	WB("V::div", (V *q, V *r, const V *x, const V *y), V::div(q, *r, *x, *y));
	W("V::/", (V *z, const V *x, const V *y), *z = *x / *y);
	W("V::%", (V *z, const V *x, const V *y), *z = *x % *y);
	W("V::/=", (V *z, const V *x), *z /= *x);
	W("V::%=", (V *z, const V *x), *z %= *x);
}
static void reg_vsint()
{
	W("S::add", (S *z, const S *x, const S *y), S::add(*z, *x, *y));
	W("S::sub", (S *z, const S *x, const S *y), S::sub(*z, *x, *y));
	W("S::mul", (S *z, const S *x, const S *y), S::mul(*z, *x, *y));
	W("S::+=", (S *z, const S *x), *z += *x);
	W("S::-=", (S *z, const S *x), *z -= *x);
	W("S::*=", (S *z, const S *x), *z *= *x);
	W("S::neg", (S *z, const S *x), S::neg(*z, *x));
	W("S::-u", (S *z, const S *x), *z = -*x);
	WB("S::div", (S *q, S *r, const S *x, const S *y), S::div(q, *r, *x, *y));
	WB("S::mod", (S *r, const S *x, const S *y), S::div(0, *r, *x, *y));
	W("S::/", (S *z, const S *x, const S *y), *z = *x / *y);
	W("S::%", (S *z, const S *x, const S *y), *z = *x % *y);
	WB("S::compare", (const S *x, const S *y), (int64_t)S::compare(*x, *y));
	WB("S::<", (const S *x, const S *y), *x < *y);
	WB("S::<=", (const S *x, const S *y), *x <= *y);
	WB("S::>", (const S *x, const S *y), *x > *y);
	WB("S::>=", (const S *x, const S *y), *x >= *y);
	WB("S::==", (const S *x, const S *y), *x == *y);
	WB("S::!=", (const S *x, const S *y), *x != *y);
	WB("S::isZero", (const S *x), x->isZero());
	WB("S::isNegative", (const S *x), x->isNegative());
	W("S::shl", (S *z, const S *x, size_t n), S::shl(*z, *x, n));
	W("S::shr", (S *z, const S *x, size_t n), S::shr(*z, *x, n));
	W("S::<<", (S *z, const S *x, size_t n), *z = *x << n);
	W("S::<<=", (S *z, size_t n), *z <<= n);
	W("S::ctor", (S *z, int x), new(z) S(x));
	W("S::ctorV", (S *z, const V *x), new(z) S(*x));
	W("S::set", (S *z, uint64_t x), z->set(x));
	W("S::seti", (S *z, int64_t x), z->set(x));
	W("S::setV", (S *z, const V *x), z->set(*x));
	W("S::set64", (S *z, const uint64_t *x, size_t n), z->set(x, n));
	W("S::clear", (S *z), z->clear());
	W("S::abs", (V *z, const S *x), *z = x->abs());
	W("S::absolute", (V *z, const S *x), S::absolute(*z, *x));
	W("S::copy", (S *z, const S *x), *z = *x);
}
static void reg_zn()
{
	W("Z::add", (Zn *z, const Zn *x, const Zn *y), Zn::add(*z, *x, *y));
	W("Z::sub", (Zn *z, const Zn *x, const Zn *y), Zn::sub(*z, *x, *y));
	W("Z::mul", (Zn *z, const Zn *x, const Zn *y), Zn::mul(*z, *x, *y));
	W("Z::neg", (Zn *z, const Zn *x), Zn::neg(*z, *x));
	W("Z::-u", (Zn *z, const Zn *x), *z = -*x);
	W("Z::inv", (Zn *z, const Zn *x), Zn::inv(*z, *x));
	W("Z::inverse", (Zn *z), z->inverse());
	W("Z::/", (Zn *z, const Zn *x, const Zn *y), *z = *x / *y);
	W("Z::/=", (Zn *z, const Zn *x), *z /= *x);
	W("Z::+=", (Zn *z, const Zn *x), *z += *x);
	W("Z::-=", (Zn *z, const Zn *x), *z -= *x);
	W("Z::*=", (Zn *z, const Zn *x), *z *= *x);
	WB("Z::compare", (const Zn *x, const Zn *y), (int64_t)Zn::compare(*x, *y));
	WB("Z::==", (const Zn *x, const Zn *y), *x == *y);
	WB("Z::isZero", (const Zn *x), x->isZero());
	W("Z::ctor", (Zn *z, int x), new(z) Zn(x));
	W("Z::set", (Zn *z, int x), z->set(x));
	W("Z::ctorV", (Zn *z, const V *x), new(z) Zn(*x));
	W("Z::setV", (Zn *z, const V *x), z->set(*x));
	W("Z::setZ", (Zn *z, const Zn *x), z->set(*x));
	W("Z::set64", (Zn *z, const uint64_t *x, size_t n), z->set(x, n));
	W("Z::set32", (Zn *z, const uint32_t *x, size_t n), z->set(x, n));
	W("Z::clear", (Zn *z), z->clear());
	W("Z::setModulo", (const V *m), Zn::setModulo(*m));
	SYM("Zn::m", &Zn::getModulo(), sizeof(V));
}
// text: the string lies in a buffer of n bytes; the result text goes to out, its length is returned
static void reg_text()
{
	W("V::parse", (V *z, const char *s, size_t n, int base), z->set(std::string(s, n), base));
	W("S::parse", (S *z, const char *s, size_t n, int base), z->set(std::string(s, n), base));
	WB("V::print", (char *o, const V *x, int base), ({ std::string t = x->toString(base); memcpy(o, t.data(), t.size()); t.size(); }));
	WB("S::print", (char *o, const S *x, int base), ({ std::string t = x->toString(base); memcpy(o, t.data(), t.size()); t.size(); }));
	WB("V::<<os", (char *o, const V *x, int hex), ({ std::ostringstream os; if (hex) os << std::hex; os << *x; std::string t = os.str(); memcpy(o, t.data(), t.size()); t.size(); }));
	WB("S::<<os", (char *o, const S *x, int hex), ({ std::ostringstream os; if (hex) os << std::hex; os << *x; std::string t = os.str(); memcpy(o, t.data(), t.size()); t.size(); }));
	WB("V::>>is", (V *z, const char *s, size_t n), ({ std::istringstream is(std::string(s, n)); is >> *z; size_t(is.fail()); }));
	WB("S::>>is", (S *z, const char *s, size_t n), ({ std::istringstream is(std::string(s, n)); is >> *z; size_t(is.fail()); }));
	WB("Z::print", (char *o, const Zn *x, int base), ({ std::string t = x->toString(base); memcpy(o, t.data(), t.size()); t.size(); }));
	W("Z::parse", (Zn *z, const char *s, size_t n), z->set(std::string(s, n)));
}
static void reg_prim()
{
	typedef mie::local::PrimitiveFunction Z;
	ENT("zm::addN", Z::addN); ENT("zm::add1", Z::add1); ENT("zm::subN", Z::subN); ENT("zm::sub1", Z::sub1); ENT("zm::mul1", Z::mul1); ENT("zm::div1", Z::div1); ENT("zm::mod1", Z::mod1);
}
int main(int argc, char **argv)
{
	if (argc > 1 && atoi(argv[1])) mie::zmInit();
	V m; m.set((uint64_t)97); Zn::setModulo(m);
	reg_vuint(); reg_vsint(); reg_zn(); reg_text(); reg_prim();
	return serve();
}
