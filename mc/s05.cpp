// S05: numbers and text convert exactly
#include "mc.hpp"
#include "guard.hpp"
#include <sprout/config.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#include <sprout/integer.hpp>
#include <cstdlib>
#include <cinttypes>
#include <cfloat>
#include <climits>
#include <cmath>
using namespace mc; typedef std::string S;
static S q(S const& s) { return str(s); }
typedef sprout::string_view V;
template<class T> T clampS(long long v) { return v < (long long)std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : v > (long long)std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : (T)v; }
template<class T> T narrowS(long long v) { return clampS<T>(v); }
// the C library on a text: value of a signed / unsigned type (saturating), and the end position
template<class T, bool = std::is_signed<T>::value> struct Ref { static T f(const char* s, char** e, int b) { return clampS<T>(std::strtoll(s, e, b)); } };
template<class T> struct Ref<T, false> { static T f(const char* s, char** e, int b) { return (T)std::strtoull(s, e, b); } };
typedef sprout::basic_string<char, 80> B;
static void texts_of(S const& t, std::vector<int> const& bases, Guard& g, Guard& g2) {
	MC_STATE("text " + q(t)); trace();
	const char* p = g.put(t.c_str(), t.size() + 1); char* vp = g2.put(t.data(), t.size()); V v(vp, t.size()); B s(p); std::wstring w(t.begin(), t.end()); std::basic_string<char16_t> u(t.begin(), t.end());
	const int o = (int)(t.find('\0') != S::npos);
	(void)o;
	for (int b : bases) {
		{ size_t z = t.find_first_not_of(" \t\n\v\f\r"); if (z != S::npos && (t[z] == '-' || t[z] == '+')) ++z; if (z != S::npos && z + 1 < t.size() && t[z] == '0' && (t[z + 1] | 32) == 'b' && (b == 0 || b == 2)) continue; } // the C23 binary prefix, which C++ does not have
		MC_DESC("base " + str(b)); char *e, *e2; size_t i;
		long L = std::strtol(p, &e, b); size_t n = (size_t)(e - p); unsigned long UL = std::strtoul(p, 0, b); int I = Ref<int>::f(p, 0, b);
		#define STR(f, T, want) e2 = 0; eq(#f "(s, end, base)", (T)sprout::f(p, &e2, b), (T)(want)); eq(#f " end", (size_t)(e2 - p), n); eq(#f "(s, base)", (T)sprout::f(p, b), (T)(want)); eq(#f "(s, nullptr, base)", (T)sprout::f(p, nullptr, b), (T)(want)); eq(#f "(s, null end, base)", (T)sprout::f(p, (char**)0, b), (T)(want)); \
			{ wchar_t* we = 0; eq(#f "(wide, end, base)", (T)sprout::f(w.c_str(), &we, b), (T)(want)); eq(#f " wide end", (size_t)(we - w.c_str()), n); eq(#f "(u16, base)", (T)sprout::f(u.c_str(), b), (T)(want)); }
		STR(strtol, long, L) STR(strtoul, unsigned long, UL) STR(strtoll, long long, L) STR(strtoull, unsigned long long, UL) STR(strtoimax, std::intmax_t, L) STR(strtoumax, std::uintmax_t, UL)
		#define STO(f, T, want) i = 99; eq(#f "(string, idx, base)", (T)sprout::f(s, &i, b), (T)(want)); eq(#f " idx", i, n); eq(#f "(string, base)", (T)sprout::f(s, b), (T)(want)); eq(#f "(string, no idx, base)", (T)sprout::f(s, (size_t*)0, b), (T)(want)); \
			i = 99; eq(#f "(view, idx, base)", (T)sprout::f(v, &i, b), (T)(want)); eq(#f " view idx", i, n); eq(#f "(view, base)", (T)sprout::f(v, b), (T)(want)); eq(#f "(view, no idx, base)", (T)sprout::f(v, (size_t*)0, b), (T)(want));
		STO(stoi, int, I) STO(stol, long, L) STO(stoll, long long, L) STO(stoul, unsigned long, UL) STO(stoull, unsigned long long, UL) STO(stoimax, std::intmax_t, L) STO(stoumax, std::uintmax_t, UL)
		eq("string_to_int<short>", sprout::string_to_int<short>(s, b), Ref<short>::f(p, 0, b)); eq("string_to_int<signed char>", (int)sprout::string_to_int<signed char>(v, b), (int)Ref<signed char>::f(p, 0, b));
		eq("str_to_int<short>", sprout::str_to_int<short>(p, b), Ref<short>::f(p, 0, b));
		if (b == 0) { eq("from_string<int>", sprout::from_string<int>(s), I); eq("from_string<ulong>(view)", sprout::from_string<unsigned long>(v), UL); i = 99; eq("from_string<long>(idx)", sprout::from_string<long>(s, &i), L); eq("from_string idx", i, n); }
		if (b == 10) {
			eq("atoi", sprout::atoi(p), I); eq("atol", sprout::atol(p), L); eq("atoll", sprout::atoll(p), (long long)L); eq("atoi wide", sprout::atoi(w.c_str()), I); eq("ascii_to_int<short>", sprout::ascii_to_int<short>(p), Ref<short>::f(p, 0, 10));
			eq("strtol(s)", sprout::strtol(p), L); eq("stoi(s)", sprout::stoi(s), I); eq("stoul(s)", sprout::stoul(v), UL);
		}
	}
}
MC_SECTION(s05_int_texts) {
	const char al[] = " -+0x17a\t9Xz"; int k = thorough() ? 11 : 8, n = 5; bound("integer texts", "every text up to " + str(n) + " over the first " + str(k) + " of {space - + 0 x 1 7 a tab 9 X z}, bases 0 2 8 10 16 36");
	Guard g, g2; std::vector<int> bs = {0, 2, 8, 10, 16, 36};
	sequences_upto(n, k, [&](std::vector<int> const& v) { S t; for (int x : v) t += al[x]; texts_of(t, bs, g, g2); });
}
MC_SECTION(s05_int_chars) { // every single character inside a text, every base
	bound("character texts", "every character code before, between and after digits, every base 0, 2-36"); Guard g, g2; std::vector<int> bs; bs.push_back(0); for (int b = 2; b <= 36; ++b) bs.push_back(b);
	for (int c = 1; c < 256; ++c) { if (c >= 128) continue; for (S t : {S(1, (char)c), S(1, (char)c) + "1", "1" + S(1, (char)c) + "1", "0" + S(1, (char)c) + "1", "-" + S(1, (char)c) + "1"}) texts_of(t, bs, g, g2); }
	for (int c = 128; c < 256; ++c) for (S t : {S(1, (char)c) + "1", "1" + S(1, (char)c) + "1"}) { const char* p = g.put(t.c_str(), t.size() + 1); MC_STATE("text " + q(t)); for (int b : bs) { char* e = 0, *e2 = 0; eq("strtol(high char)", sprout::strtol(p, &e, b), std::strtol(p, &e2, b)); eq("end(high char)", e - p, e2 - p); } }
}
static S show(unsigned long long m, bool neg, int b) { S r; do { r += "0123456789abcdefghijklmnopqrstuvwxyz"[m % b]; m /= b; } while (m); if (neg) r += '-'; return S(r.rbegin(), r.rend()); }
static std::vector<unsigned long long> edges() {
	std::vector<unsigned long long> r; for (int k : {0, 3, 7, 8, 15, 16, 31, 32, 63}) for (int d = -3; d <= 3; ++d) r.push_back((1ull << k) + d); for (int d = 1; d <= 4; ++d) r.push_back(0ull - d);
	unsigned long long t = 1; for (int i = 0; i < 20; ++i) { r.push_back(t); r.push_back(t - 1); r.push_back(t + 1); t *= 10; } return r;
}
MC_SECTION(s05_int_edges) {
	bound("integer edges", "values within 3 of every power of two boundary of the 8/16/32/64-bit types and of every power of ten, as text in every base, alone, with leading zeros, upper case, prefixes, a further digit, and a trailing character"); Guard g, g2;
	for (unsigned long long m : edges()) for (int neg = 0; neg < 2; ++neg) for (int b = 2; b <= 36; ++b) {
		S t = show(m, neg, b), up = t; for (char& c : up) c = (char)std::toupper(c); std::vector<int> bs(1, b); if (b == 10) bs.push_back(0);
		for (S x : {t, t + "0", t + "1", up + "  ", (neg ? "-00" : " 000") + t.substr(neg), t + "."}) texts_of(x, bs, g, g2);
		if (b == 16) { texts_of((neg ? "-0x" : "+0x") + t.substr(neg), {0, 16, 10}, g, g2); texts_of((neg ? "-0X" : "0X") + up.substr(neg), {0, 16}, g, g2); }
		if (b == 8) texts_of((neg ? "-0" : "0") + t.substr(neg), {0, 8}, g, g2);
	}
}
// printing
template<int Base, class T> void print1(T v) {
	typedef unsigned long long U; bool neg = v < 0; U m = neg ? 0ull - (U)(long long)v : (U)v; S want = show(m, neg, Base);
	MC_STATE("print " + want + " base " + str(Base)); auto r = sprout::int_to_string<char, Base>(v); eq("int_to_string", S(r.begin(), r.end()), want); eq("int_to_string c_str", S(r.c_str()), want); ok("int_to_string capacity", r.max_size() >= want.size());
	auto w = sprout::int_to_string<char16_t, Base>(v); eq("int_to_string<char16_t>", S(w.begin(), w.end()), want);
	eq("round trip", (T)sprout::string_to_int<T>(r, Base), v);
	if (Base == 10) { auto a = sprout::to_string(v); eq("to_string", S(a.begin(), a.end()), want); auto ww = sprout::to_wstring(v); eq("to_wstring", S(ww.begin(), ww.end()), want); auto u6 = sprout::to_u16string(v); eq("to_u16string", S(u6.begin(), u6.end()), want); auto u3 = sprout::to_u32string(v); eq("to_u32string", S(u3.begin(), u3.end()), want); }
}
template<int Base> void printAll() {
	for (int i = -128; i < 128; ++i) { print1<Base, signed char>((signed char)i); print1<Base, unsigned char>((unsigned char)(i + 128)); }
	for (int i = -32768; i < 32768; i += (thorough() || i < -32700 || i > 32700 || (i > -300 && i < 300)) ? 1 : 97) { print1<Base, short>((short)i); print1<Base, unsigned short>((unsigned short)(i + 32768)); }
	for (unsigned long long m : edges()) { print1<Base, int>((int)m); print1<Base, int>((int)(0 - m)); print1<Base, unsigned>((unsigned)m); print1<Base, long>((long)m); print1<Base, long>((long)(0 - m)); print1<Base, unsigned long>((unsigned long)m); print1<Base, unsigned long long>(m); print1<Base, long long>((long long)m); }
	trace();
}
MC_SECTION(s05_print) { bound("printing", "all 8-bit values, all (quick: a boundary-dense part of the) 16-bit values, boundary families of 32/64-bit values, bases 2 3 4 5 7 8 9 10 11 13 16");
	printAll<2>(); printAll<3>(); printAll<4>(); printAll<5>(); printAll<7>(); printAll<8>(); printAll<9>(); printAll<10>(); printAll<11>(); printAll<13>(); printAll<16>();  }
template<int B> struct CapAll { static void run() {
	#define CAP(T) { MC_STATE("capacity base " + str(B) + " " #T); typedef std::numeric_limits<T> L; size_t need = show(L::max(), false, B).size(); size_t needn = L::is_signed ? show(0ull - (unsigned long long)(long long)L::min(), true, B).size() : 0; if (needn > need) need = needn; size_t have = sprout::printed_integer_digits<T, B>::value; okd("printed_integer_digits", have >= need, [&] { return "have " + str(have) + " need " + str(need); }); }
	CAP(signed char) CAP(unsigned char) CAP(short) CAP(unsigned short) CAP(int) CAP(unsigned) CAP(long) CAP(unsigned long) CAP(long long) CAP(unsigned long long) CapAll<B - 1>::run(); } };
template<> struct CapAll<1> { static void run() {} };
MC_SECTION(s05_capacity) { bound("capacity", "every integer type and base 2-16"); CapAll<16>::run(); trace(); }
// decimal floating point text
template<class T> struct FRef; template<> struct FRef<float> { static float f(const char* s, char** e) { return std::strtof(s, e); } static int ulps() { return 8; } };
template<> struct FRef<double> { static double f(const char* s, char** e) { return std::strtod(s, e); } static int ulps() { return 8; } };
template<> struct FRef<long double> { static long double f(const char* s, char** e) { return std::strtold(s, e); } static int ulps() { return 2048; } };
// within a few units in the last place (subnormals: a few smallest steps); zero, infinity and the sign exactly
template<class T> bool near(T a, T b) {
	if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if (std::signbit(a) != std::signbit(b)) return false;
	if (std::isinf(b) || std::isinf(a)) return a == b || (std::fabs(std::isinf(a) ? b : a) > std::numeric_limits<T>::max() * (1 - 16 * std::numeric_limits<T>::epsilon()));
	T tol = std::fabs(b) * std::numeric_limits<T>::epsilon() * FRef<T>::ulps() + std::numeric_limits<T>::denorm_min() * 4; return std::fabs(a - b) <= tol;
}
template<class T> void fnear(const char* op, T got, T want) { if (near(got, want)) eq(op, want, want); else eq(op, got, want); }
static void ftext(S const& t, Guard& g, Guard& g2) {
	MC_STATE("text " + q(t)); trace(); const char* p = g.put(t.c_str(), t.size() + 1); char* vp = g2.put(t.data(), t.size()); V v(vp, t.size()); sprout::basic_string<char, 80> s(t.size() <= 80 ? p : ""); std::wstring w(t.begin(), t.end()); bool fits = t.size() <= 80;
	char* e; float F = std::strtof(p, 0); double D = std::strtod(p, &e); long double L = std::strtold(p, 0); size_t n = (size_t)(e - p), i; char* e2;
	fnear("strtof", (float)sprout::strtof(p), F); fnear("strtof(null)", (float)sprout::strtof(p, nullptr), F); fnear("strtod", (double)sprout::strtod(p), D); fnear("strtod(null)", (double)sprout::strtod(p, (char**)0), D); fnear("strtold", (long double)sprout::strtold(p), L); fnear("atof", sprout::atof(p), D); fnear("strtod wide", (double)sprout::strtod(w.c_str()), D); fnear("str_to_float<float>", sprout::str_to_float<float>(p), F);
	e2 = 0; fnear("strtod(end)", sprout::strtod(p, &e2), D); eq("strtod end", (size_t)(e2 - p), n); e2 = 0; fnear("strtof(end)", sprout::strtof(p, &e2), F); eq("strtof end", (size_t)(e2 - p), n); e2 = 0; fnear("strtold(end)", sprout::strtold(p, &e2), L); eq("strtold end", (size_t)(e2 - p), n);
	if (fits) { fnear("stof", sprout::stof(s), F); fnear("stod", sprout::stod(s), D); fnear("stold", sprout::stold(s), L); i = 99; fnear("stod(idx)", sprout::stod(s, &i), D); eq("stod idx", i, n); i = 99; fnear("stof(idx)", sprout::stof(s, &i), F); eq("stof idx", i, n); fnear("stod(no idx)", sprout::stod(s, (size_t*)0), D); fnear("from_string<double>", sprout::from_string<double>(s), D); fnear("string_to_float<float>", sprout::string_to_float<float>(s), F); }
	fnear("stof(view)", sprout::stof(v), F); fnear("stod(view)", sprout::stod(v), D); fnear("stold(view)", sprout::stold(v), L); i = 99; fnear("stod(view, idx)", sprout::stod(v, &i), D); eq("stod(view) idx", i, n); i = 99; fnear("stold(view, idx)", sprout::stold(v, &i), L); eq("stold(view) idx", i, n);
}
MC_SECTION(s05_float_texts) {
	const char al[] = "1.e-+0 95E"; int k = thorough() ? 9 : 7, n = thorough() ? 6 : 6; bound("decimal texts", "every text up to " + str(n) + " over the first " + str(k) + " of {1 . e - + 0 space 9 5 E}"); Guard g, g2;
	sequences_upto(n, k, [&](std::vector<int> const& v) { S t; for (int x : v) t += al[x]; ftext(t, g, g2); });
}
MC_SECTION(s05_float_families) {
	bound("decimal families", "9 mantissa spellings x every exponent -400..400 and the long double extremes; digit strings of 1-60 digits with the point at every place"); Guard g, g2;
	for (const char* m : {"1", "-1", "9.9", "0.001", "123456789", "-3.14159265358979323846264338327950288419716939937510", "0", "-0.0", "17976931348623157"}) for (int e = -400; e <= 400; ++e) for (const char* sep : {"e", "E+"}) { if (*(sep + 1) && e < 0) continue; ftext(S(m) + sep + std::to_string(e), g, g2); }
	for (int e : {4931, 4932, 4933, 5000, 123456, 1234567890, -4931, -4940, -4950, -4951, -4952, -4990, -123456, -1234567890}) for (const char* m : {"1", "-2.5", "0"}) ftext(S(m) + "e" + std::to_string(e), g, g2);
	ftext("1e99999999999999999999999999", g, g2); ftext("1e-99999999999999999999999999", g, g2); ftext("1e0000000000000000000000000000001", g, g2);
	for (const char* d : {"1", "9", "314159265358979", "0"}) for (int n = 1; n <= 60; ++n) { S t; while ((int)t.size() < n) t += d; t.resize(n); for (int pt = 0; pt <= n; ++pt) ftext(t.substr(0, pt) + "." + t.substr(pt), g, g2); }
}
// printing of floats: fixed, six places; and exponent form
template<class T> void fprint(T v) {
	MC_STATE("print " + str(v)); char b[600];
	auto r = sprout::to_string(v); S t(r.begin(), r.end()); eq("to_string c_str", S(r.c_str()), t);
	auto x = sprout::float_to_string_exp<char>(v); S tx(x.begin(), x.end()); eq("float_to_string_exp c_str", S(x.c_str()), tx);
	std::snprintf(b, sizeof b, "%f", (double)v); S want = b; std::snprintf(b, sizeof b, "%e", (double)v); S wantx = b;
	if (std::isnan(v) || std::isinf(v)) { eq("to_string(special)", t, want); eq("float_to_string_exp(special)", tx, want); return; }
	// shape: the same text as printf, up to a rounding error in the value
	long double a = std::strtold(t.c_str(), 0), w = v, tol = 0.50001e-6L + std::fabs(w) * std::numeric_limits<T>::epsilon() * 16; bool shape = t.find('.') != S::npos && t.size() - t.find('.') == 7 && (t[0] == '-') == std::signbit(v) && t.find_first_not_of("-0123456789.") == S::npos && t.rfind('-') + 1 <= 1 && (t[t[0] == '-'] != '0' || t[(t[0] == '-') + 1] == '.');
	okd("to_string(float)", shape && std::fabs(a - w) <= tol, [&] { return "got " + t + " want " + want; });
	long double ax = std::strtold(tx.c_str(), 0); long double tolx = std::fabs(w) * (0.50001e-6L + std::numeric_limits<T>::epsilon() * 64); if (v != 0) tolx += 4 * (long double)std::numeric_limits<T>::denorm_min();
	size_t ep = tx.find('e'); bool sh = ep != S::npos && tx.size() - ep >= 4 && (tx[0] == '-') == std::signbit(v) && ep == (size_t)(tx[0] == '-') + 8 && tx[(tx[0] == '-') + 1] == '.' && (tx[tx[0] == '-'] != '0' || v == 0) && (tx[ep + 1] == '+' || tx[ep + 1] == '-') && tx.size() == ep + 4 + (tx.size() - ep > 4 && tx[ep + 2] != '0');
	okd("float_to_string_exp", sh && std::fabs(ax - w) <= tolx, [&] { return "got " + tx + " want " + wantx; });
	T back = sprout::string_to_float<T>(x); okd("exp round trip", (std::isinf(back) && std::fabs(w) > std::numeric_limits<T>::max() * 0.999999) || std::fabs((long double)back - w) <= tolx * 2 + std::fabs(w) * 16 * std::numeric_limits<T>::epsilon(), [&] { return tx + " -> " + str(back); });
	trace();
}
MC_SECTION(s05_float_print) {
	bound("float printing", "0-9999 and k/1000, k+0.5e-6 neighbourhoods, every power of two and ten with neighbours, for float and double");
	for (int i = 0; i < 10000; ++i) { fprint<double>(i); fprint<float>((float)i); fprint<double>(i / 1000.0); fprint<float>(i / 1000.0f); fprint<double>(-i / 1e6); fprint<double>(i + 0.9999994); fprint<double>(i + 0.9999997); fprint<float>(i + 0.999999f); }
	for (int e = -1074; e < 1024; ++e) { double d = std::ldexp(1.0, e); for (double x : {d, std::nextafter(d, 0.0), std::nextafter(d, INFINITY), -d}) fprint<double>(x); }
	for (int e = -149; e < 128; ++e) { float d = std::ldexp(1.0f, e); for (float x : {d, std::nextafterf(d, 0.0f), std::nextafterf(d, INFINITY), -d}) fprint<float>(x); }
	for (int e = -323; e < 309; ++e) for (const char* m : {"1", "2", "3", "9.99999", "9.999999", "9.9999999", "4.5", "7"}) { double d = std::strtod((S(m) + "e" + std::to_string(e)).c_str(), 0); if (!std::isinf(d)) { fprint<double>(d); fprint<double>(std::nextafter(d, 0.0)); } float f = (float)d; if (!std::isinf(f)) fprint<float>(f); }
	fprint<double>(INFINITY); fprint<double>(-INFINITY); fprint<double>(NAN); fprint<float>(INFINITY); fprint<float>(-INFINITY); fprint<double>(-0.0); fprint<float>(-0.0f); fprint<double>(DBL_MAX); fprint<float>(FLT_MAX);
	auto w = sprout::to_wstring(1.5); eq("to_wstring(float)", S(w.begin(), w.end()), S("1.500000")); auto u = sprout::to_u32string(-2.25f); eq("to_u32string(float)", S(u.begin(), u.end()), S("-2.250000"));
}
