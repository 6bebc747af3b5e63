// M01: rounding and floating-point manipulation, against the C library
#include "mc.hpp"
#include <sprout/math/functions.hpp>
#include <sprout/math/float2_sig_exp.hpp>
#include <sprout/math/float2_significand.hpp>
#include <sprout/math/float2_exponent.hpp>
#include <sprout/math/logb2.hpp>
#include <sprout/math/ilogb2.hpp>
#include <sprout/math/is_integer.hpp>
#include <sprout/math/is_even.hpp>
#include <sprout/math/is_odd.hpp>
#include <sprout/math/fractional_part.hpp>
#include <sprout/math/integer_part.hpp>
#include <sprout/math/frac_int.hpp>
#include <sprout/math/muladd.hpp>
#include <sprout/math/minmax.hpp>
#include <cmath>
#include <cstring>
#include <limits>
using namespace mc;
namespace sm = sprout::math;
#ifndef PART
#define PART 1
#endif
typedef long double L;
// bit identity, any NaN equal to any NaN
template<class T> bool id(T a, T b) { return std::isnan(a) ? std::isnan(b) : (a == b && std::signbit(a) == std::signbit(b)); }
template<class T> std::string sx(T v) { char b[64]; std::snprintf(b, sizeof b, "%La", (L)v); return b; }
template<class T> void f(const char* op, T g, T w) { hit(op, hval((double)w)); if (!id(g, w)) report(op, "got " + sx(g) + " want " + sx(w)); }
template<class T> void n(const char* op, T g, T w) { hit(op, hval((long)w)); if (g != w) report(op, "got " + mc::str((long)g) + " want " + mc::str((long)w)); }
inline void b(const char* op, bool g, bool w) { hit(op, w); if (g != w) report(op, g ? "got true want false" : "got false want true"); }

template<class To, class T> bool fits(T r) { return r >= (L)std::numeric_limits<To>::min() && r <= (L)std::numeric_limits<To>::max(); }
template<class To, class T> void ints(T x) {
	if (!std::isfinite(x)) { To m = std::numeric_limits<To>::min(); n("ifloor of a non-number", sm::ifloor<To>(x), m); n("iceil of a non-number", sm::iceil<To>(x), m); n("itrunc of a non-number", sm::itrunc<To>(x), m); n("iround of a non-number", sm::iround<To>(x), m); return; }
	if (!fits<To>(x)) return;
	if (fits<To>(std::floor(x))) n("ifloor", sm::ifloor<To>(x), (To)std::floor(x));
	if (fits<To>(std::ceil(x))) n("iceil", sm::iceil<To>(x), (To)std::ceil(x));
	n("itrunc", sm::itrunc<To>(x), (To)std::trunc(x));
	if (fits<To>(std::round(x))) n("iround", sm::iround<To>(x), (To)std::round(x));
}
template<class T> void unary(T x) {
	f("floor", sm::floor(x), std::floor(x)); f("ceil", sm::ceil(x), std::ceil(x)); f("trunc", sm::trunc(x), std::trunc(x)); f("round", sm::round(x), std::round(x));
	ints<int>(x); ints<long>(x); ints<signed char>(x); ints<unsigned>(x); ints<short>(x); ints<unsigned long>(x);
	if (std::isfinite(x) && std::fabs(x) < 9e18) { n("lround", sm::lround(x), std::lround(x)); n("llround", sm::llround(x), std::llround(x)); }
	T ip; T fr = std::modf(x, &ip); f("integer_part", sm::integer_part(x), ip); if (!std::isnan(x)) { f("fractional_part", sm::fractional_part(x), fr); sprout::pair<T, T> p = sm::frac_int(x); f("frac_int fraction", p.first, fr); f("frac_int integer", p.second, ip); }
	int e = 0; T m = std::frexp(x, &e); if (!std::isfinite(x)) e = 0; sprout::pair<T, int> s = sm::float_sig_exp(x), s2 = sm::float2_sig_exp(x); f("float_sig_exp significand", s.first, m); n("float_sig_exp exponent", s.second, e); f("float2_sig_exp significand", s2.first, m); n("float2_sig_exp exponent", s2.second, e);
	f("float_significand", sm::float_significand(x), m); n("float_exponent", sm::float_exponent(x), e); f("float2_significand", sm::float2_significand(x), m); n("float2_exponent", sm::float2_exponent(x), e);
	f("logb", sm::logb(x), std::logb(x)); n("ilogb", sm::ilogb(x), std::ilogb(x)); f("logb2", sm::logb2(x), std::logb(x)); n("ilogb2", sm::ilogb2(x), std::ilogb(x));
	f("fabs", sm::fabs(x), std::fabs(x)); f("abs", sm::abs(x), std::fabs(x));
#if PART < 3
	b("signbit", sm::signbit(x), std::signbit(x));
#else
	// documented: without the builtins the sign of zeros and NaNs is not visible
	if (!std::isnan(x) && x != 0) b("signbit", sm::signbit(x), std::signbit(x));
#endif
	b("isnan", sm::isnan(x), std::isnan(x)); b("isinf", sm::isinf(x), std::isinf(x)); b("isfinite", sm::isfinite(x), std::isfinite(x)); b("isnormal", sm::isnormal(x), std::isnormal(x)); b("issubnormal", (sm::issubnormal)(x), std::fpclassify(x) == FP_SUBNORMAL); b("iszero", sm::iszero(x), x == 0); n("fpclassify", sm::fpclassify(x), std::fpclassify(x));
	bool fi = std::isfinite(x); b("is_integer", sm::is_integer(x), fi && std::trunc(x) == x); b("is_even", sm::is_even(x), fi && std::fmod(x, (T)2) == 0); b("is_odd", sm::is_odd(x), fi && std::fabs(std::fmod(x, (T)2)) == 1);
}
template<class T> bool closer(T x, T y) { T d = std::fabs(x - y); T m = std::fabs(x) > std::fabs(y) ? std::fabs(x) : std::fabs(y); if (m < 1) m = 1; return x == y || d <= std::numeric_limits<T>::epsilon() * m; }
template<class T> void binary(T x, T y) {
	f("fmod", sm::fmod(x, y), std::fmod(x, y)); f("remainder", sm::remainder(x, y), std::remainder(x, y));
	int q = 0; T r = std::remquo(x, y, &q); sprout::pair<T, int> p = sm::rem_quo(x, y); f("rem_quo remainder", p.first, r);
	if (!std::isnan(r)) { int w = (q & 7) * 1; if (q < 0) w = -((-q) & 7); n("rem_quo quotient", p.second, w); n("quotient", sm::quotient(x, y), w); n("rem_quo<long> quotient", sm::rem_quo<long>(x, y).second, (long)w); n("quotient<long>", sm::quotient<long>(x, y), (long)w); }
	f("fdim", sm::fdim(x, y), std::fdim(x, y));
	if (!(x == 0 && y == 0)) { f("fmin", sm::fmin(x, y), std::fmin(x, y)); f("fmax", sm::fmax(x, y), std::fmax(x, y)); } else { b("fmin of zeros", sm::fmin(x, y) == 0, true); b("fmax of zeros", sm::fmax(x, y) == 0, true); }
	if (PART < 3 || !(std::isnan(y) || y == 0)) f("copysign", sm::copysign(x, y), std::copysign(x, y));
	b("isgreater", sm::isgreater(x, y), x > y); b("isgreaterequal", sm::isgreaterequal(x, y), x >= y); b("isless", sm::isless(x, y), x < y); b("islessequal", sm::islessequal(x, y), x <= y); b("islessgreater", sm::islessgreater(x, y), x < y || x > y); b("isunordered", sm::isunordered(x, y), std::isnan(x) || std::isnan(y));
	// the tolerant comparisons: |x - y| <= epsilon * max(|x|, |y|, 1)
	if (!std::isnan(x) && !std::isnan(y) && !(std::isinf(x) || std::isinf(y))) { bool e = closer(x, y); b("equal_to", sm::equal_to(x, y), e); b("not_equal_to", sm::not_equal_to(x, y), !e); b("less", sm::less(x, y), !e && x < y); b("greater", sm::greater(x, y), !e && x > y); b("less_equal", sm::less_equal(x, y), e || x < y); b("greater_equal", sm::greater_equal(x, y), e || x > y); n("compare", sm::compare(x, y), e ? 0 : x < y ? -1 : 1); }
}
template<class T> void scale(T x, int k) { f("ldexp", sm::ldexp(x, k), std::ldexp(x, k)); f("scalbn", sm::scalbn(x, k), std::scalbn(x, k)); f("scalbln", sm::scalbln(x, (long)k), std::scalbln(x, (long)k)); }
template<class T> std::vector<T> bound_set() {
	std::vector<T> v; typedef std::numeric_limits<T> Z; T base[] = {0, Z::denorm_min(), 3 * Z::denorm_min(), std::nextafter(Z::min(), (T)0), Z::min(), std::nextafter(Z::min(), (T)1), (T)1e-20, Z::epsilon() / 2, Z::epsilon(), 2 * Z::epsilon(), (T)0.1, (T)0.25, std::nextafter((T)0.5, (T)0), (T)0.5, std::nextafter((T)0.5, (T)1), (T)0.75, 1 - Z::epsilon() / 2, 1, 1 + Z::epsilon(), 1 + 2 * Z::epsilon(), (T)1.5, 2, std::nextafter((T)2, (T)0), (T)2.5, 3, (T)3.25, (T)3.5, 4, 5, std::nextafter((T)5, (T)9), 6, 7, 8, 9, 10, (T)12.5, 17, 100, 127, 128, (T)127.5, 255, 1000, (T)65535.5, 1e6, (T)8388607.5, (T)16777215, (T)16777216, (T)16777217, (T)2147483520, (T)2147483647, (T)2147483648., (T)4294967295., (T)4294967296., (T)9007199254740991., (T)9007199254740992., (T)9007199254740993., (T)9223372036854775807.L, (T)9223372036854775808.L, (T)18446744073709551615.L, (T)18446744073709551616.L, (T)1e20, (T)1e30, Z::max() / 4, Z::max() / 2, std::nextafter(Z::max(), (T)0), Z::max(), Z::infinity(), (T)3.14159265358979323846L, (T)2.71828182845904523536L, Z::quiet_NaN()};
	for (T x : base) { v.push_back(x); v.push_back(-x); } return v;
}
template<class T> void doms(const char* name) {
	std::vector<T> v = bound_set<T>(); for (T x : v) { MC_STATE(std::string(name) + " " + sx(x)); unary(x); }
	for (T x : v) { for (T y : v) { MC_STATE(std::string(name) + " " + sx(x) + " and " + sx(y)); binary(x, y); } }
	int E = std::numeric_limits<T>::max_exponent, D = std::numeric_limits<T>::digits; std::vector<int> ks; for (int k : {0, 1, -1, 2, -2, 7, -7, 31, -31, 64, -64}) ks.push_back(k); for (int j = -3; j <= 3; ++j) for (int c : {E, -E, E - D, -E - D, 2 * E, -2 * E, 2 * E + D, -2 * E - D, D, -D}) ks.push_back(c + j); ks.push_back(100000); ks.push_back(-100000);
	for (T x : v) { for (int k : ks) { MC_STATE(std::string(name) + " " + sx(x) + " scaled by 2^" + mc::str(k)); scale(x, k); } }
}
MC_SECTION(boundary_float) { doms<float>("float"); }
MC_SECTION(boundary_double) { doms<double>("double"); }
MC_SECTION(boundary_long_double) { doms<long double>("long double"); }
inline void flt_range(uint32_t lo, uint32_t hi, uint32_t step) {
	for (uint64_t u = lo; u < hi; u += step) { uint32_t w = (uint32_t)u; float x; std::memcpy(&x, &w, 4); MC_STATE("float " + sx(x)); unary(x); }
}
// every (sign, exponent) of float with mantissas: quick = a family per upper half, thorough = every pattern of the exponents that matter
#define FL(S) MC_SECTION(float_patterns_##S) { uint32_t lo = (uint32_t)(S) << 28; uint32_t st = thorough() ? 0x10 : 0x10000; for (uint32_t h = 0; h < 0x10000000u; h += st) for (uint32_t l : {0u, 1u, 0x7fffu, 0x8000u, 0xffffu}) { uint32_t w = lo + h + (thorough() ? (l & 15) : l); float x; std::memcpy(&x, &w, 4); if (thorough() && ((w >> 23) & 255) > 152 && (w & 0xff0)) break; MC_STATE("float " + sx(x)); unary(x); } }
FL(0) FL(1) FL(2) FL(3) FL(4) FL(5) FL(6) FL(7) FL(8) FL(9) FL(10) FL(11) FL(12) FL(13) FL(14) FL(15)
template<class T> void exps(const char* nm, int lo, int hi) {
	int D = std::numeric_limits<T>::digits; std::vector<T> ms; ms.push_back(1); for (int k = 1; k < D; k += (thorough() ? 1 : 4)) { ms.push_back(1 + std::ldexp((T)1, -k)); ms.push_back(2 - std::ldexp((T)1, -k)); ms.push_back(1 + std::ldexp((T)1, -k) + std::ldexp((T)1, 1 - D)); ms.push_back((T)1.5 - std::ldexp((T)1, -k)); } ms.push_back(1 + std::ldexp((T)1, 1 - D)); ms.push_back(2 - std::ldexp((T)1, 1 - D));
	for (int e = lo; e <= hi; ++e) for (T m : ms) for (int sg = 0; sg < 2; ++sg) { T x = std::ldexp(sg ? -m : m, e); MC_STATE(std::string(nm) + " " + sx(x)); unary(x); }
}
MC_SECTION(double_exponents_1) { exps<double>("double", -1080, -540); }
MC_SECTION(double_exponents_2) { exps<double>("double", -539, 0); }
MC_SECTION(double_exponents_3) { exps<double>("double", 1, 540); }
MC_SECTION(double_exponents_4) { exps<double>("double", 541, 1023); }
MC_SECTION(long_double_exponents_1) { exps<L>("long double", -80, 80); }
MC_SECTION(long_double_exponents_2) { int st = thorough() ? 1 : 37; for (int e = -16450; e < 16384; e += st) { if (e > 16384 - 64) st = 1; for (L m : {1.L, 1.25L, 1.9999999999L}) for (int sg = 0; sg < 2; ++sg) { L x = std::ldexp(sg ? -m : m, e); MC_STATE("long double " + sx(x)); unary(x); } } }
MC_SECTION(integers) {
	for (long i = -300; i <= 300; ++i) { MC_STATE("int " + mc::str(i)); int x = (int)i; double d = x;
		f("floor(int)", sm::floor(x), d); f("ceil(int)", sm::ceil(x), d); f("trunc(int)", sm::trunc(x), d); f("round(int)", sm::round(x), d); n("ifloor(int)", sm::ifloor(x), x); n("iceil(int)", sm::iceil(x), x); n("itrunc(int)", sm::itrunc(x), x); n("iround(int)", sm::iround(x), x); long big = x * 100000000000L; n("ifloor<long>(long)", sm::ifloor<long>(big), big); n("iceil<long>(long)", sm::iceil<long>(big), big); n("itrunc<long>(long)", sm::itrunc<long>(big), big); n("iround<long>(long)", sm::iround<long>(big), big); n("lround(int)", sm::lround(x), (long)x); n("llround(int)", sm::llround(x), (long long)x); f("integer_part(int)", sm::integer_part(x), d); f("fractional_part(int)", sm::fractional_part(x), d == 0 ? 0. : std::copysign(0., d)); f("frac_int(int)", sm::frac_int(x).second, d); int e; double m = std::frexp(d, &e); f("float_sig_exp(int)", sm::float_sig_exp(x).first, m); n("float_sig_exp(int) exp", sm::float_sig_exp(x).second, e); f("float2_sig_exp(int)", sm::float2_sig_exp(x).first, m); f("float_significand(int)", sm::float_significand(x), m); n("float_exponent(int)", sm::float_exponent(x), e); f("float2_significand(int)", sm::float2_significand(x), m); n("float2_exponent(int)", sm::float2_exponent(x), e);
		f("logb(int)", sm::logb(x), std::logb(d)); n("ilogb(int)", sm::ilogb(x), std::ilogb(d)); f("logb2(int)", sm::logb2(x), std::logb(d)); n("ilogb2(int)", sm::ilogb2(x), std::ilogb(d)); f("ldexp(int)", sm::ldexp(x, 3), d * 8); f("scalbn(int)", sm::scalbn(x, 3), d * 8); f("scalbln(int)", sm::scalbln(x, 3L), d * 8); f("fabs(int)", sm::fabs(x), std::fabs(d)); b("signbit(int)", sm::signbit(x), x < 0); b("isnan(int)", sm::isnan(x), false); b("isinf(int)", sm::isinf(x), false); b("isfinite(int)", sm::isfinite(x), true); b("isnormal(int)", sm::isnormal(x), x != 0); b("iszero(int)", sm::iszero(x), x == 0); n("fpclassify(int)", sm::fpclassify(x), x ? FP_NORMAL : FP_ZERO);
		for (int j = -9; j <= 9; ++j) { MC_STATE("int " + mc::str(i) + " and " + mc::str(j)); double y = j; f("fmod(int,int)", sm::fmod(x, j), std::fmod(d, y)); f("remainder(int,int)", sm::remainder(x, j), std::remainder(d, y)); int q; double r = std::remquo(d, y, &q); f("rem_quo(int,int)", sm::rem_quo(x, j).first, r); if (j) { n("rem_quo<long>(int,int)", sm::rem_quo<long>(x, j).second, q < 0 ? -(long)((-q) & 7) : (long)(q & 7)); n("quotient<long>(int,int)", sm::quotient<long>(x, j), q < 0 ? -(long)((-q) & 7) : (long)(q & 7)); bool sty = std::is_same<decltype(sm::rem_quo<long>(x, j)), sprout::pair<double, long> >::value && std::is_same<decltype(sm::quotient<long>(x, j)), long>::value; b("rem_quo<R> result type", sty, true); }
			f("fdim(int,int)", sm::fdim(x, j), std::fdim(d, y)); f("fmin(int,int)", sm::fmin(x, j), std::fmin(d, y)); f("fmax(int,int)", sm::fmax(x, j), std::fmax(d, y)); f("copysign(int,int)", sm::copysign(x, j), std::copysign(d, y)); f("fmod(float,double)", sm::fmod((float)x, y), std::fmod(d, y)); b("isgreater(int,int)", sm::isgreater(x, j), x > j); b("isless(int,int)", sm::isless(x, j), x < j); b("isgreaterequal(int,int)", sm::isgreaterequal(x, j), x >= j); b("islessequal(int,int)", sm::islessequal(x, j), x <= j); b("islessgreater(int,int)", sm::islessgreater(x, j), x != j); b("isunordered(int,int)", sm::isunordered(x, j), false);
			b("equal_to(int,int)", sm::equal_to(x, j), x == j); b("not_equal_to(int,int)", sm::not_equal_to(x, j), x != j); b("less(int,int)", sm::less(x, j), x < j); b("greater(int,int)", sm::greater(x, j), x > j); b("less_equal(int,int)", sm::less_equal(x, j), x <= j); b("greater_equal(int,int)", sm::greater_equal(x, j), x >= j); n("compare(int,int)", sm::compare(x, j), x == j ? 0 : x < j ? -1 : 1);
			if (j >= 0) { unsigned u = (unsigned)j; b("less(int,unsigned)", sm::less(x, u), x < j); b("less(unsigned,int)", sm::less(u, x), j < x); b("greater(int,unsigned)", sm::greater(x, u), x > j); b("greater(unsigned,int)", sm::greater(u, x), j > x); b("less_equal(int,unsigned)", sm::less_equal(x, u), x <= j); b("less_equal(unsigned,int)", sm::less_equal(u, x), j <= x); b("greater_equal(int,unsigned)", sm::greater_equal(x, u), x >= j); b("greater_equal(unsigned,int)", sm::greater_equal(u, x), j >= x); n("compare(int,unsigned)", sm::compare(x, u), x == j ? 0 : x < j ? -1 : 1); if (x != -1 - j) b("equal_to(int,unsigned)", sm::equal_to(x, u), x == j); }
			b("less(int,double)", sm::less(x, y), x < j); b("equal_to(int,double)", sm::equal_to(x, y), x == j); } }
}
MC_SECTION(fma) {
	double v[] = {0., 1., -1., 0.5, 3., -2.25, 1024., 1e-3, 65537.}; for (double x : v) for (double y : v) for (double z : v) { MC_STATE("fma " + sx(x) + " " + sx(y) + " " + sx(z)); if (std::fma(x, y, z) == x * y + z) f("fma exact", sm::fma(x, y, z), x * y + z);
#if PART == 1
		f("fma", sm::fma(x, y, z), std::fma(x, y, z)); f("fma(float)", sm::fma((float)x, (float)y, (float)z), std::fma((float)x, (float)y, (float)z)); f("fma(long double)", sm::fma((L)x, (L)y, (L)z), std::fma((L)x, (L)y, (L)z));
#endif
	}
	double in = std::numeric_limits<double>::infinity(), na = std::numeric_limits<double>::quiet_NaN(), s[] = {in, -in, na, 0., -0., 1., -1.}; for (double x : s) for (double y : s) for (double z : s) { MC_STATE("fma " + sx(x) + " " + sx(y) + " " + sx(z)); f("fma special", sm::fma(x, y, z), std::fma(x, y, z)); }
}
