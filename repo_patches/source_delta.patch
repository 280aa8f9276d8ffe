From 3e5f1f89b4a399cabd00215fd6b9ba19e1c5ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 01/17] fix: FpDbl::neg returned pN for zero (zero test read
 the output pointer instead of the low word)

---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From ebc2d155e32248ac3f3dff43026aee1a2042daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 02/17] fix: Fp2::squareC used a+a instead of a+b

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..27447b5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -493,7 +493,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 99dbbae7a3a04cf2332bc728d585a57b28bee9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 03/17] fix: fast_modp did not reduce for the SNARK prime
 (table of multiples fitted only the default prime)

---
 include/zm2.h |  5 +++--
 src/zm2.cpp   | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..bdc376b 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -227,11 +227,11 @@ public:
 		addNC(z, z, quarterTbl_[i]);
 	}
 
-	/* z <- z mod p for z in [0, 6p] */
+	/* z <- z mod p for z in [0, 5p) */
 	static inline void fast_modp(Fp &z)
 	{
 		uint64_t t = z.v_[3] >> 61;
-		z -= getDirectP((int)t);
+		z -= modpTbl_[t];
 	}
 
 	template<class T>
@@ -268,6 +268,7 @@ private:
 	static mie::Fp invTbl_[512];
 public:
 	static mie::Fp *halfTbl_; // [2] = [0, 1/2 mod p]
+	static mie::Fp *modpTbl_; // [8] : modpTbl_[t] = ceil(t * 2^253 / p) * p
 private:
 	static mie::Fp *quarterTbl_; // [4] = [0, 1/4, 2/4, 3/4]
 	static mie::Vuint montgomeryR_; // 1 = 1r
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..1e6d1ed 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -45,17 +45,20 @@ static mie::Vuint pN;
 
 const size_t pTblSize = 10;
 const size_t pNtblSize = 4;
+const size_t modpTblSize = 8;
 struct Data {
 	Fp pTbl[pTblSize];
 	Fp halfTbl[2];
 	Fp quarterTbl[4];
 	FpDbl pNTbl[pNtblSize];
+	Fp modpTbl[modpTblSize];
 };
 Data *s_data;
 
 static Fp *s_pTbl;
 Fp *Fp::halfTbl_;
 Fp *Fp::quarterTbl_;
+Fp *Fp::modpTbl_;
 bn::FpDbl *bn::FpDbl::pNTbl_;
 
 typedef mie::ZmZ<mie::Vuint, Fp> Fp_emu;
@@ -1680,8 +1683,9 @@ L("@@");
 		input [x3:x2:x1:x0] < 6p
 		output [x3:x2:x1:x0] % p
 		destroy rax, rdx, t0, t1, t2, t3
-		(i*p) >> 253 = 0,1,2,3,4,5,6 for i = 0, .., 6
-		t = (i * p) >> 253
+		t = x >> 253
+		x - modpTbl_[t] is in [-p, p)
+		remark : modpTbl_[1] = p
 	*/
 	void fast_modp(
 		const Reg64& x3, const Reg64& x2, const Reg64& x1, const Reg64& x0,
@@ -1692,7 +1696,7 @@ L("@@");
 		shr(rdx, 61); // rdx = [0:x3_63:x3_62:x3_61]
 
 		shl(rdx, 5); // sizeof(Fp) = 32
-		mov(a, (uint64_t)&s_pTbl[0]);
+		mov(a, (uint64_t)Fp::modpTbl_);
 		sub_rm(x3, x2, x1, x0, a + rdx);
 		sbb(rdx, rdx);
 
@@ -3657,10 +3661,15 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 		Fp::halfTbl_ = s_data->halfTbl;
 		Fp::quarterTbl_ = s_data->quarterTbl;
 		bn::FpDbl::pNTbl_ = s_data->pNTbl;
+		Fp::modpTbl_ = s_data->modpTbl;
 
 		for (size_t i = 0; i < pTblSize; i++) {
 			Fp::setDirect(s_pTbl[i], p * int(i));
 		}
+		for (size_t t = 0; t < modpTblSize; t++) {
+			// ceil(t * 2^253 / p) * p
+			Fp::setDirect(modpTbl_[t], ((mie::Vuint(int(t)) << 253) + p - 1) / p * p);
+		}
 		/*
 			for option1
 			lower 192-bits of pNTbl_[1] = 0
-- 
2.43.0


From 718c664347762d3e7c0d4e66014d44bec59dabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 04/17] fix: Fp6Dbl::mul left 6p^2 in c.b, beyond the input
 range of mod on the SNARK prime (result not reduced)

---
 include/bn.h | 2 +-
 src/zm2.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 27447b5..0d87378 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,7 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
-			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6p^2 may exceed the range of mod
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 1e6d1ed..26f5f62 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2256,8 +2256,8 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
-		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
-		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+		// FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6p^2 may exceed the range of mod
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 9105c885a9b7a7782a864868ef65afa3abe7c866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 05/17] fix: Compress::square_n ran 2^64 times for n=0 and used
 the undefined upper half of the int argument

---
 src/zm2.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 26f5f62..4a8a6ba 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2370,10 +2370,12 @@ L("@@");
 		const int g4 = sizeof(Fp2) * 1;
 		const int g5 = sizeof(Fp2) * 5;
 		mov(z, ptr [gp1]);
-		mov(ptr [rsp + nsave], gp2);
+		mov(dword [rsp + nsave], gp2.cvt32()); // n is int
 		movq(zsave, z);
 
 		inLocalLabel();
+		test(gp2.cvt32(), gp2.cvt32());
+		jle(".end", T_NEAR);
 	L(".lp");
 
 		// Fp2Dbl::square(T0, z.g4_);
@@ -2530,8 +2532,9 @@ L("@@");
 		in_Fp2_add(z + g5, z + g5, t0);
 #endif
 
-		sub(qword [rsp + nsave], 1);
+		sub(dword [rsp + nsave], 1);
 		jnz(".lp", T_NEAR);
+	L(".end");
 		outLocalLabel();
 	}
 	/*
-- 
2.43.0


From e2b00afaa61da5781b21b2bec00ee01b7e5c0da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 06/17] fix: scalar multiplication by a negative int or
 mpz_class

A negative int was taken modulo 2^32 and a negative mpz_class read its
limbs out of bounds (_mp_size is negative).  The blocks of a signed scalar
are now those of its absolute value and the result is negated.
---
 include/bn.h  |  9 ++++++++-
 include/zm.h  | 19 +++++++++++++++++--
 include/zm2.h |  5 +++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 0d87378..dc6b3ed 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t());
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -47,6 +47,10 @@ struct IntTag<mpz_class> {
 	{
 		return M_blockSize(x);
 	}
+	static inline bool isNegative(const mpz_class& x)
+	{
+		return mpz_sgn(x.get_mpz_t()) < 0;
+	}
 };
 } } // mie::util
 #endif
@@ -2644,6 +2648,9 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (Tag::isNegative(m)) {
+		FF::neg(out[1], out[1]);
+	}
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 3763b45..cdf5aaa 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1353,14 +1353,25 @@ struct IntTag {
 	{
 		return x.size();
 	}
+	static inline bool isNegative(const T&)
+	{
+		return false;
+	}
 };
 
+/*
+	the blocks of a signed integer are those of its absolute value
+*/
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0 - value_type(x) : value_type(x);
+	}
+	static inline bool isNegative(const int& x)
+	{
+		return x < 0;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
@@ -1378,6 +1389,10 @@ struct IntTag<size_t> {
 	{
 		return 1;
 	}
+	static inline bool isNegative(const size_t&)
+	{
+		return false;
+	}
 };
 
 } // util
diff --git a/include/zm2.h b/include/zm2.h
index bdc376b..c7615b7 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -421,6 +421,11 @@ struct IntTag<mie::Fp> {
 		err();
 		return 0;
 	}
+	static inline bool isNegative(const mie::Fp&)
+	{
+		err();
+		return false;
+	}
 	static inline void err()
 	{
 		printf("Use mie::Vuint intead of Fp for the 3rd parameter for ScalarMulti\n");
-- 
2.43.0


From dcbbbe2a04848ed13ee50cbbeb238ff423a3741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 07/17] fix: Vuint::sub(): report the underflow when y has more
 words than x

sub_in() reads y.size() words of x, and the ones beyond x.size() are stale.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index cdf5aaa..9a6c085 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -596,7 +596,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
-		bool c = sub_in(out, x, y);
+		bool c = x.size() < y.size() || sub_in(out, x, y);
 		if (c) {
 			local::errExit("can't sub");
 		}
-- 
2.43.0


From be53d6d638a42b39ea6446a50678730897b193fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 08/17] fix: Vuint::bitLen(): one too large when the top word
 rounds up to a power of two as a double

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 9a6c085..66974fc 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -530,7 +530,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		size_t size = this->size();
 		T v = (*this)[size - 1];
 		union di t;
-		t.f = (double)v;
+		t.f = (double)(v & ~(v >> 1)); // clear the bits which can round v up to a power of two
 		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
 			(size - 1) * sizeof(T) * 8;
 		return ret;
-- 
2.43.0


From ccdc98c1a76b0fc9085b34e7146c8beb364f5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 09/17] fix: Vuint::testBit(): a bit beyond the top word is
 zero instead of a stale word of the buffer

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 66974fc..b7db696 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -541,7 +541,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
 		T mask = T(1) << bit_pos;
-		return ((*this)[unit_pos] & mask) != 0;
+		return (getAtWithCheck(unit_pos) & mask) != 0;
 	}
 
 	static bool add_in(VuintT& out, const VuintT& x, const VuintT& y)
-- 
2.43.0


From 3e5ea954d0a955bbc21b592c9af8e8c03f30c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:21 +0000
Subject: [PATCH 10/17] fix: Vuint::div() exited when the divisor uses all
 words of the buffer (one word of scratch too many)

---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index b7db696..f475b92 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -929,8 +929,7 @@ public:
 		if (q) {
 			std::fill(q, q + xn - yn + 1, 0);
 		}
-		Buffer t;
-		t.alloc(yn + 1);
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (yn + 1));
 		double yt = GetApp(y, yn, true);
 		while (F::compare(x, xn, y, yn) >= 0) {
 			size_t len = yn;
-- 
2.43.0


From c3c933b76fde2e2d0363feae2ae8135efac21747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 11/17] fix: Vsint(int) of the smallest int

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index f475b92..f8a969b 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -965,7 +965,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? value_type(0) - value_type(x) : value_type(x))
 		, isNeg_(x < 0)
 	{
 	}
-- 
2.43.0


From d31086714eb4da1fa1f7777ae4d24ed31ffe23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 12/17] fix: Vsint::set(unsigned value or words) kept the sign
 of the old value

---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index f8a969b..595575c 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -981,6 +981,7 @@ public:
 	void set(value_type x)
 	{
 		v_.set(x);
+		isNeg_ = false;
 	}
 	void set(int64_t x)
 	{
@@ -992,7 +993,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); isNeg_ = false; }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
-- 
2.43.0


From 7f7606321f4c29b883b07f02ce48d48dbd0192fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 13/17] fix: ZmZ::set(int) did not reduce a positive value

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 595575c..45055c8 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1201,6 +1201,7 @@ public:
 			v_.clear();
 		} else if (x > 0) {
 			v_.set(x);
+			modulo();
 		} else {
 			if (x == -2147483647 - 1 || m_ < -x) {
 				local::errExit("x is too small");
-- 
2.43.0


From e3b4b56e9214b373b49fd941dd7f87eaad0d01ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 14/17] fix: Vsint printed a zero that came from negative
 operands as -0

---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 45055c8..a6e8a88 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -999,7 +999,7 @@ public:
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
 	void set(const std::string& str, int base = 10)
@@ -1112,7 +1112,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 3f3886ba257e23e61ca0b0f1ee789f8da2f12268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:10 +0000
Subject: [PATCH 15/17] fix: convertToNAF read outside vectors of fewer than
 two digits

---
 include/bn.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bn.h b/include/bn.h
index dc6b3ed..ea68225 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -125,6 +125,7 @@ template<class Vec>
 void convertToNAF(Vec& v, const Vec& in)
 {
 	v = in;
+	if (v.size() < 2) return;
 	size_t pos = v.size() - 1;
 	for (;;) {
 		size_t p = getContinuousVal(v, pos, 0);
-- 
2.43.0


From 84e711c0129081bf97947bbb5c7ae9fb747a983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 16/17] fix: Fp::set(int) computed INT_MIN as 2^64 - 2^31
 negated

---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index c7615b7..ce8bbaa 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = 0u - static_cast<unsigned int>(x);
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From 2e0b903815811022483527dc2eb00b23c267c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 17/17] fix: the default constructor of the Java Ec2 left the
 point uninitialised

---
 java/bn254_if.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..91307f7 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -199,7 +199,7 @@ class Ec2 {
 	::bn::Ec2 self_;
 	friend class Fp12;
 public:
-	Ec2() {}
+	Ec2() { self_.clear(); }
 	Ec2(const Ec2& x) : self_(x.self_) {}
 	Ec2(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0

