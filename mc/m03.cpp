// M03: integer mathematics is exact
#include "mc.hpp"
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
#include <sprout/math/common_factor.hpp>
#include <sprout/math/factorial.hpp>
#include <sprout/math/bernoulli.hpp>
#include <sprout/integer.hpp>
#include <sprout/integer/carry_to_exp2.hpp>
#include <sprout/integer/integer_digits.hpp>
#include <sprout/integer/static_pow.hpp>
#include <sprout/utility/limited.hpp>
#include <sprout/detail/pow.hpp>
#include <sprout/cstdlib/abs.hpp>
#include <sprout/cstdlib/div.hpp>
#include <sprout/cinttypes/abs.hpp>
#include <sprout/cinttypes/div.hpp>
#include <cmath>
#include <limits>
using namespace mc;
namespace sm = sprout::math;
typedef __int128 W;
typedef long long LL;
inline std::string ws(W v) { if (v == 0) return "0"; bool n = v < 0; std::string s; while (v != 0) { int d = (int)(v % 10); s += (char)('0' + (d < 0 ? -d : d)); v /= 10; } if (n) s += '-'; return std::string(s.rbegin(), s.rend()); }
inline W wabs(W v) { return v < 0 ? -v : v; }
inline W gcdw(W a, W b) { a = wabs(a); b = wabs(b); while (b != 0) { W t = a % b; a = b; b = t; } return a; }
template<class T> bool fit(W v) { return v >= (W)std::numeric_limits<T>::min() && v <= (W)std::numeric_limits<T>::max(); }
template<class T> void q(const char* op, T g, W w) { hit(op, hval((long)w)); if ((W)g != w) report(op, "got " + ws((W)g) + " want " + ws(w)); }
template<class T> void pair_(T a, T b) {
	W g = gcdw(a, b); if (fit<T>(g)) { q("gcd", sm::gcd(a, b), g); q("gcd_evaluator<T>", sm::gcd_evaluator<T>()(a, b), g); q("gcd_evaluator<>", sm::gcd_evaluator<>()(a, b), g); }
	W l = 0; bool lv = g != 0 && __builtin_mul_overflow(wabs(a) / g, wabs(b), &l); if (!lv && fit<T>(l)) { q("lcm", sm::lcm(a, b), l); q("lcm_evaluator<T>", sm::lcm_evaluator<T>()(a, b), l); q("lcm_evaluator<>", sm::lcm_evaluator<>()(a, b), l); }
	typedef decltype(a + b) P; W s = (W)a + b, m; bool mo = __builtin_mul_overflow((W)a, (W)b, &m); W lo = std::numeric_limits<P>::min(), hi = std::numeric_limits<P>::max();
	q("limited::plus", sprout::limited::plus(a, b), s < lo ? lo : s > hi ? hi : s); q("limited::multiplies", sprout::limited::multiplies(a, b), mo ? ((a < 0) != (b < 0) ? lo : hi) : m < lo ? lo : m > hi ? hi : m);
}
template<class T> void all8(const char* n, int lo, int hi) { for (int a = lo; a <= hi; ++a) for (int b = lo; b <= hi; ++b) { MC_STATE(std::string(n) + " " + mc::str(a) + ", " + mc::str(b)); pair_<T>((T)a, (T)b); } }
template<class T> std::vector<T> family() {
	std::vector<T> v; typedef std::numeric_limits<T> Z; std::vector<W> c; for (int i = 0; i <= 13; ++i) c.push_back(i); for (W x : {(W)21, (W)30, (W)97, (W)210, (W)720, (W)1001, (W)5040, (W)30030, (W)65521, (W)65536, (W)2147483629, (W)2147483647, (W)2147483648LL, (W)4294967291LL, (W)6442450941LL, (W)1000000007, (W)600851475143LL, (W)1099511627776LL, (W)4611686018427387847LL, (W)6148914691236517205LL}) c.push_back(x);
	W M = Z::max(); for (W x : {M, M - 1, M - 2, M / 2, M / 2 + 1, M / 2 - 1, M / 3, M / 3 * 2, M / 5, M / 7 * 6}) c.push_back(x);
	int dg = Z::digits; for (int k = 4; k < dg; k += (thorough() ? 1 : 5)) { c.push_back((W)1 << k); c.push_back(((W)1 << k) - 1); c.push_back(((W)1 << k) + 1); c.push_back(((W)3 << k)); }
	c.push_back((W)1 << dg); std::set<W> s; for (W x : c) { s.insert(x); s.insert(-x); s.insert(-x + 0); } s.insert(Z::min()); if (Z::min() < 0) { s.insert((W)Z::min() + 1); s.insert((W)Z::min() / 2); s.insert((W)Z::min() / 4); }
	for (W x : s) if (fit<T>(x)) v.push_back((T)x); return v;
}
template<class T> void wide(const char* n) { std::vector<T> v = family<T>(); for (T a : v) for (T b : v) { MC_STATE(std::string(n) + " " + ws(a) + ", " + ws(b)); pair_<T>(a, b); } }
MC_SECTION(gcd_signed_char) { all8<signed char>("signed char", -128, 127); }
MC_SECTION(gcd_unsigned_char) { all8<unsigned char>("unsigned char", 0, 255); }
MC_SECTION(gcd_char) { all8<char>("char", std::numeric_limits<char>::min(), std::numeric_limits<char>::max()); }
MC_SECTION(gcd_small_int) { int N = thorough() ? 400 : 130; for (int a = -N; a <= N; ++a) for (int b = -N; b <= N; ++b) { MC_STATE("int " + mc::str(a) + ", " + mc::str(b)); pair_<int>(a, b); } }
MC_SECTION(gcd_wide_1) { wide<short>("short"); wide<unsigned short>("unsigned short"); wide<int>("int"); }
MC_SECTION(gcd_wide_2) { wide<unsigned>("unsigned"); wide<long>("long"); wide<unsigned long>("unsigned long"); }
MC_SECTION(gcd_wide_3) { wide<LL>("long long"); wide<unsigned long long>("unsigned long long"); }
// saturating arithmetic on promoted 64-bit and 32-bit mixtures of the same signedness
MC_SECTION(limited_mixed) {
	for (int a : family<int>()) for (long b : family<long>()) { MC_STATE("int " + ws(a) + ", long " + ws(b)); W s = (W)a + b, m = (W)a * b, lo = std::numeric_limits<long>::min(), hi = std::numeric_limits<long>::max(); s = s < lo ? lo : s > hi ? hi : s; m = m < lo ? lo : m > hi ? hi : m; q("limited::plus(int,long)", sprout::limited::plus(a, b), s); q("limited::plus(long,int)", sprout::limited::plus(b, a), s); q("limited::multiplies(int,long)", sprout::limited::multiplies(a, b), m); q("limited::multiplies(long,int)", sprout::limited::multiplies(b, a), m); }
}
// ---- abs / div families
template<class T> W vabs(T v) { return wabs(v); }
MC_SECTION(abs_div) {
	std::vector<LL> v = family<LL>(); for (int i = -40; i <= 40; ++i) v.push_back(i);
	for (LL a : v) { MC_STATE("abs " + ws(a)); if (a == std::numeric_limits<LL>::min()) continue; q("abs(long long)", sprout::abs(a), wabs(a)); q("llabs", sprout::llabs(a), wabs(a)); q("labs", sprout::labs((long)a), wabs(a)); q("abs(long)", sprout::abs((long)a), wabs(a)); q("imaxabs", sprout::imaxabs(a), wabs(a)); if (fit<int>(a) && a != std::numeric_limits<int>::min()) q("abs(int)", sprout::abs((int)a), wabs(a)); if (fit<short>(a) && a != -32768) q("abs(short)", sprout::abs((short)a), wabs(a)); }
	for (LL a : v) for (LL b : v) { if (b == 0 || (a == std::numeric_limits<LL>::min() && b == -1)) continue; MC_STATE("div " + ws(a) + ", " + ws(b)); W u = (W)a / b, r = (W)a % b;
		sprout::lldiv_t d = sprout::lldiv(a, b), d2 = sprout::div(a, b); q("lldiv quot", d.quot, u); q("lldiv rem", d.rem, r); q("div(long long) quot", d2.quot, u); q("div(long long) rem", d2.rem, r); sprout::ldiv_t l = sprout::ldiv((long)a, (long)b), l2 = sprout::div((long)a, (long)b); q("ldiv quot", l.quot, u); q("ldiv rem", l.rem, r); q("div(long) quot", l2.quot, u); q("div(long) rem", l2.rem, r); sprout::imaxdiv_t x = sprout::imaxdiv(a, b); q("imaxdiv quot", x.quot, u); q("imaxdiv rem", x.rem, r);
		if (fit<int>(a) && fit<int>(b) && fit<int>(u)) { sprout::div_t i = sprout::div((int)a, (int)b); q("div quot", i.quot, u); q("div rem", i.rem, r); } }
}
// ---- rounding up to a power of two, digit counts, compile-time powers
inline W up2(W m) { if (m == 0) return 0; W p = 1; while (p < m) p <<= 1; return p; }
template<class T> void carry(T x) {
	W w; typedef std::numeric_limits<T> Z; if (Z::is_signed) { W p = up2(wabs(x)); w = x < 0 ? -p : p; if (!fit<T>(w)) w = Z::min(); } else { w = up2(x); if (!fit<T>(w)) w = 0; } q("carry_to_exp2", sprout::carry_to_exp2(x), w);
}
MC_SECTION(carry_8_16) { for (int i = -32768; i <= 65535; ++i) { MC_STATE("carry " + mc::str(i)); if (i >= -128 && i < 128) carry<signed char>((signed char)i); if (i >= 0 && i < 256) carry<unsigned char>((unsigned char)i); if (i < 32768) carry<short>((short)i); if (i >= 0) carry<unsigned short>((unsigned short)i); carry<int>(i * 30011); carry<unsigned>((unsigned)i * 40009u); carry<long>(i * 140000000000001L); carry<unsigned long>((unsigned long)i * 281000000000001UL); } }
template<class T> void carrys() { for (T x : family<T>()) { MC_STATE("carry " + ws(x)); carry<T>(x); } for (int k = 0; k < std::numeric_limits<T>::digits; ++k) for (int d = -1; d <= 1; ++d) { W x = ((W)1 << k) + d; if (fit<T>(x)) { MC_STATE("carry " + ws(x)); carry<T>((T)x); } x = -x; if (fit<T>(x)) { MC_STATE("carry " + ws(x)); carry<T>((T)x); } } }
MC_SECTION(carry_wide) { carrys<int>(); carrys<unsigned>(); carrys<long>(); carrys<unsigned long>(); carrys<LL>(); carrys<unsigned long long>(); }
template<class T> int digs(int base) { W m = (W)std::numeric_limits<T>::max(); if (std::numeric_limits<T>::is_signed) ++m; int n = 0; while (m > 0) { ++n; m /= base; } return n; }
template<class T, int B> void dig() { MC_STATE("digits of " + mc::str((int)sizeof(T)) + (std::numeric_limits<T>::is_signed ? " byte signed" : " byte unsigned") + " in base " + mc::str(B)); q("integer_digits", sprout::integer_digits<T, B>::value, digs<T>(B)); }
template<int B> struct DigAll { static void go() { dig<signed char, B>(); dig<unsigned char, B>(); dig<short, B>(); dig<unsigned short, B>(); dig<int, B>(); dig<unsigned, B>(); dig<long, B>(); dig<unsigned long, B>(); DigAll<B - 1>::go(); } };
template<> struct DigAll<1> { static void go() {} };
MC_SECTION(digits) { DigAll<16>::go(); MC_STATE(std::string("digits in the default base")); q("integer_digits default base", sprout::integer_digits<int>::value, 10); }
template<class T, T X, T Y> void spow() { W w = 1; for (T i = 0; i < Y; ++i) w *= X; MC_STATE("static_pow " + ws(X) + ", " + ws(Y)); q("static_pow", sprout::static_pow<T, X, Y>::value, w); }
template<LL Y> struct PowAll { static void go() { spow<LL, 2, Y>(); spow<LL, -2, Y>(); spow<LL, 1, Y>(); spow<LL, -1, Y>(); spow<LL, 0, Y>(); if (Y < 40) { spow<LL, 3, (Y < 40 ? Y : 0)>(); spow<LL, -3, (Y < 40 ? Y : 0)>(); } spow<LL, 7, (Y < 23 ? Y : 0)>(); spow<LL, 10, (Y < 19 ? Y : 0)>(); spow<LL, -13, (Y < 17 ? Y : 0)>(); PowAll<Y - 1>::go(); } };
template<> struct PowAll<-1> { static void go() {} };
template<unsigned long long Y> struct TwoAll { static void go() { MC_STATE("2^" + mc::str((long)Y)); q("static_pow2", sprout::static_pow2<unsigned long long, Y>::value, (W)1 << Y); q("static_pow2m1", sprout::static_pow2m1<unsigned long long, Y>::value, ((W)1 << Y) - 1); q("static_pow2(int)", sprout::static_pow2<int, (int)(Y < 31 ? Y : 0)>::value, (W)1 << (Y < 31 ? Y : 0)); q("static_pow2m1(int)", sprout::static_pow2m1<int, (int)(Y < 32 ? Y : 0)>::value, ((W)1 << (Y < 32 ? Y : 0)) - 1); TwoAll<Y - 1>::go(); } };
template<> struct TwoAll<(unsigned long long)-1> { static void go() {} };
MC_SECTION(static_powers) { PowAll<62>::go(); TwoAll<63>::go(); }
MC_SECTION(pow_n) {
	for (LL x = -12; x <= 12; ++x) { W w = 1; for (int n = 0; n <= 62; ++n) { MC_STATE("pow_n " + ws(x) + ", " + ws(n)); if (!fit<LL>(w)) break; q("pow_n", sprout::detail::pow_n(x, n), w); q("pow_n(unsigned)", sprout::detail::pow_n(x, (unsigned)n), w); w *= x; } }
	for (double x : {1., -1., 2., -2., 0.5, 4., 0.25}) for (int n = -100; n <= 100; ++n) { MC_STATE("pow_n " + mc::str(x) + ", " + ws(n)); hit("pow_n(double)", hval(x)); double g = sprout::detail::pow_n(x, n), w = std::pow(x, n); if (g != w) report("pow_n(double)", "got " + mc::str(g) + " want " + mc::str(w)); }
}
// ---- factorials and Bernoulli numbers, in 113-bit arithmetic
typedef __float128 Q;
inline std::string qs(Q v) { char b[64]; std::snprintf(b, sizeof b, "%.21Lg", (long double)v); return b; }
template<class T> void fact_i(const char* n) { W w = 1; size_t lim = sm::factorial_limit<T>(); for (size_t i = 0; i <= lim; ++i) { if (i) w *= (W)i; MC_STATE(std::string(n) + " " + mc::str(i) + "!"); q("factorial", sm::factorial<T>(i), w); q("unchecked_factorial", sm::unchecked_factorial<T>(i), w); } MC_STATE(std::string(n) + " factorial limit"); ok("factorial_limit covers at least 5!", lim >= 5 && fit<T>(w)); }
template<class T> void near(const char* op, T g, Q w, Q ulps) { hit(op, hval((double)w)); Q e = (Q)g - w; if (e < 0) e = -e; Q a = w < 0 ? -w : w; if (!(e <= ulps * (Q)std::numeric_limits<T>::epsilon() * a)) report(op, "got " + qs((Q)g) + " want " + qs(w)); }
template<class T> void fact_f(const char* n) { Q w = 1; size_t lim = sm::factorial_limit<T>(); for (size_t i = 0; i <= lim; ++i) { if (i) w *= (Q)(double)i; MC_STATE(std::string(n) + " " + mc::str(i) + "!"); near("factorial (floating)", sm::factorial<T>(i), w, 1); near("unchecked_factorial (floating)", sm::unchecked_factorial<T>(i), w, 1); } }
MC_SECTION(factorials) { fact_i<signed char>("signed char"); fact_i<unsigned char>("unsigned char"); fact_i<short>("short"); fact_i<unsigned short>("unsigned short"); fact_i<int>("int"); fact_i<unsigned>("unsigned"); fact_i<long>("long"); fact_i<unsigned long>("unsigned long"); fact_i<LL>("long long"); fact_i<unsigned long long>("unsigned long long"); fact_f<float>("float"); fact_f<double>("double"); fact_f<long double>("long double"); }
template<class T> void bern(const char* n) {
	size_t lim = sm::bernoulli_number_limit<T>(); int N = (int)lim / 2; std::vector<Q> t(N + 1, 0); if (N) t[1] = 1; for (int k = 2; k <= N; ++k) t[k] = (Q)(double)(k - 1) * t[k - 1]; for (int k = 2; k <= N; ++k) for (int j = k; j <= N; ++j) t[j] = (Q)(double)(j - k) * t[j - 1] + (Q)(double)(j - k + 2) * t[j];
	for (size_t i = 0; i <= lim; ++i) { Q w; if (i == 0) w = 1; else if (i == 1) w = -0.5; else if (i % 2) w = 0; else { int m = (int)i / 2; Q p = 1; for (size_t k = 0; k < i; ++k) p *= 2; w = (Q)(double)i * t[m] / p / (p - 1); if (m % 2 == 0) w = -w; } MC_STATE(std::string(n) + " B" + mc::str(i)); near("bernoulli_number", sm::bernoulli_number<T>(i), w, 1); }
}
MC_SECTION(bernoulli) { bern<float>("float"); bern<double>("double"); bern<long double>("long double"); }
