// B02: bit operations are exact for every integer
#include "mc.hpp"
#include <sprout/bit/operation.hpp>
#include <sprout/bit/bit_length.hpp>
#include <sprout/bit/bit_reverse.hpp>
#include <sprout/integer/carry_to_exp2.hpp>
#include <limits>
#include <algorithm>
using namespace mc; typedef std::string S; typedef unsigned long long u64;
template<class T> struct O { // the mathematical definitions on a vector of bits
	static const int W = sizeof(T) * 8;
	static T from(bool const* b) { u64 v = 0; for (int i = 0; i < W; ++i) v |= (u64)b[i] << i; return (T)v; }
	bool b[64]; explicit O(T x) { for (int i = 0; i < W; ++i) b[i] = (u64)x >> i & 1; }
	T val() const { return from(b); }
	int ones() const { int n = 0; for (int i = 0; i < W; ++i) n += b[i]; return n; }
	int lead(bool v) const { int n = 0; while (n < W && b[W - 1 - n] == v) ++n; return n; }
	int trail(bool v) const { int n = 0; while (n < W && b[n] == v) ++n; return n; }
	T shift(int s, bool rot, bool fill) const { O r(0); for (int i = 0; i < W; ++i) { int j = i - s; r.b[i] = j >= 0 && j < W ? b[j] : rot ? b[(j % W + W) % W] : fill; } return r.val(); }
	T range(int lo, int hi, int v) const { O r(*this); for (int i = lo; i < hi; ++i) r.b[i] = v == 2 ? !b[i] : v; return r.val(); }
	T rev(int n) const { O r(0); for (int i = 0; i < n; ++i) r.b[i] = b[n - 1 - i]; return r.val(); }
	T only(int n) const { O r(0); if (n < W) r.b[n] = 1; return r.val(); } T low(int n) const { O r(0); for (int i = 0; i < n && i < W; ++i) r.b[i] = 1; return r.val(); }
};
#define E(name, got, want) eq(name, (long long)(got), (long long)(want))
template<class T> void unary(T x) { O<T> o(x); int t0 = o.trail(0), t1 = o.trail(1), W = O<T>::W;
	E("popcount", sprout::popcount(x), o.ones()); E("parity", sprout::parity(x), o.ones() & 1); E("clz", sprout::clz(x), o.lead(0)); E("ctz", sprout::ctz(x), t0); E("cntl0", sprout::cntl0(x), o.lead(0)); E("cntl1", sprout::cntl1(x), o.lead(1)); E("cntt0", sprout::cntt0(x), t0); E("cntt1", sprout::cntt1(x), t1); E("clrsb", sprout::clrsb(x), o.lead(o.b[W - 1]) - 1);
	E("bit_length", sprout::bit_length(x), W - o.lead(0)); E("bit_reverse", sprout::bit_reverse(x), o.rev(W));
	E("isols1b", sprout::isols1b(x), o.only(t0)); E("isols0b", sprout::isols0b(x), o.only(t1)); E("rstls1b", sprout::rstls1b(x), t0 < W ? o.range(t0, t0 + 1, 0) : x); E("setls0b", sprout::setls0b(x), t1 < W ? o.range(t1, t1 + 1, 1) : x); E("rstt1", sprout::rstt1(x), o.range(0, t1, 0)); E("sett0", sprout::sett0(x), o.range(0, t0, 1));
	E("maskt0", sprout::maskt0(x), o.low(t0)); E("maskt1", sprout::maskt1(x), o.low(t1)); E("maskt0ls1b", sprout::maskt0ls1b(x), o.low(t0 + 1)); E("maskt1ls0b", sprout::maskt1ls0b(x), o.low(t1 + 1));
}
template<class T> void at(T x, int p) { O<T> o(x); int W = O<T>::W;
	E("rotl", sprout::rotl(x, p), o.shift(p, true, 0)); E("rotr", sprout::rotr(x, p), o.shift(-p, true, 0)); E("shal", sprout::shal(x, p), o.shift(p, false, 0)); E("shll", sprout::shll(x, p), o.shift(p, false, 0)); E("shlr", sprout::shlr(x, p), o.shift(-p, false, 0)); E("shar", sprout::shar(x, p), o.shift(-p, false, o.b[W - 1]));
	E("setbit", sprout::setbit(x, p), o.range(p, p + 1, 1)); E("rstbit", sprout::rstbit(x, p), o.range(p, p + 1, 0)); E("flipbit", sprout::flipbit(x, p), o.range(p, p + 1, 2)); eq("testbit", sprout::testbit(x, p), o.b[p]);
	E("setbitsge", sprout::setbitsge(x, p), o.range(p, W, 1)); E("rstbitsge", sprout::rstbitsge(x, p), o.range(p, W, 0)); E("flipbitsge", sprout::flipbitsge(x, p), o.range(p, W, 2)); E("setbitsle", sprout::setbitsle(x, p), o.range(0, p + 1, 1)); E("rstbitsle", sprout::rstbitsle(x, p), o.range(0, p + 1, 0)); E("flipbitsle", sprout::flipbitsle(x, p), o.range(0, p + 1, 2));
	E("bit_reverse_in", sprout::bit_reverse_in(x, p), o.rev(p)); if (p == 0) E("bit_reverse_in all", sprout::bit_reverse_in(x, W), o.rev(W));
}
// the least power of two not below x, with the documented results at the ends of the range
template<class T> void carry(T x) { typedef std::numeric_limits<T> L; typedef __int128 I; I v = x, a = v < 0 ? -v : v, p = 1; while (p < a) p *= 2; if (a == 0) p = 0; I want = v < 0 ? -p : p; T w = x == L::min() && L::is_signed ? x : want > (I)L::max() ? (L::is_signed ? L::min() : (T)0) : want < (I)L::min() ? L::min() : (T)want; E("carry_to_exp2", sprout::carry_to_exp2(x), w); }
template<class T, bool C> struct Carry { static void go(T x) { carry(x); } }; template<class T> struct Carry<T, false> { static void go(T) {} };
template<class T, bool C> void all16(const char* n, bool posn) { const int W = sizeof(T) * 8; bound(n, "every value" + S(posn ? " with every position" : ""));
	for (unsigned v = 0; v < (1u << W); ++v) { T x = (T)v; { MC_STATE(S(n) + " " + str((long long)x)); trace(); unary(x); Carry<T, C>::go(x); } if (posn) for (int p = 0; p < W; ++p) { MC_STATE(S(n) + " " + str((long long)x) + " at " + str(p)); trace(); at(x, p); } } }
template<class T, bool C> void runs(const char* n) { const int W = sizeof(T) * 8; auto below = [](int k) { return k >= 64 ? ~0ull : (1ull << k) - 1; };
	bound(n, "every union of at most two runs of ones; one-run values and their neighbours with every position");
	for (int i = 0; i <= W; ++i) for (int j = 0; j <= i; ++j) { u64 r = below(i) & ~below(j);
		for (int d = -2; d <= 2; ++d) { T x = (T)(r + (u64)(long long)d); { MC_STATE(S(n) + " " + str((long long)x)); trace(); unary(x); Carry<T, C>::go(x); } for (int p = 0; p < W; ++p) { MC_STATE(S(n) + " " + str((long long)x) + " at " + str(p)); trace(); at(x, p); } }
		for (int k = 0; k < j; k += thorough() || W == 32 ? 1 : 2) for (int l = 0; l < k; ++l) { T x = (T)(r | (below(k) & ~below(l))); MC_STATE(S(n) + " " + str((long long)x)); trace(); unary(x); Carry<T, C>::go(x); } } }
MC_SECTION(b02_int8) { all16<signed char, true>("signed char", true); all16<unsigned char, true>("unsigned char", true); all16<char, false>("char", true); }
MC_SECTION(b02_int16) { all16<short, true>("short", true); } MC_SECTION(b02_uint16) { all16<unsigned short, true>("unsigned short", true); } MC_SECTION(b02_char16) { all16<char16_t, false>("char16_t", thorough()); }
MC_SECTION(b02_int) { runs<int, true>("int"); } MC_SECTION(b02_uint) { runs<unsigned, true>("unsigned"); } MC_SECTION(b02_long) { runs<long, true>("long"); } MC_SECTION(b02_ulong) { runs<unsigned long, true>("unsigned long"); } MC_SECTION(b02_llong) { runs<long long, true>("long long"); } MC_SECTION(b02_ullong) { runs<unsigned long long, true>("unsigned long long"); }
MC_SECTION(b02_wide) { runs<wchar_t, false>("wchar_t"); runs<char32_t, false>("char32_t"); }
// the ends of the range are usable in constant expressions (no overflow, no oversized shift)
#define CE(T) static_assert(((void)sprout::isols1b(std::numeric_limits<T>::min()), (void)sprout::isols0b(std::numeric_limits<T>::max()), (void)sprout::rstls1b(std::numeric_limits<T>::min()), (void)sprout::maskt0(std::numeric_limits<T>::min()), (void)sprout::maskt1(std::numeric_limits<T>::max()), (void)sprout::maskt0ls1b(std::numeric_limits<T>::min()), (void)sprout::maskt1ls0b(std::numeric_limits<T>::max()), (void)sprout::rstt1(std::numeric_limits<T>::max()), (void)sprout::sett0(std::numeric_limits<T>::min()), (void)sprout::setls0b(std::numeric_limits<T>::max()), \
	(void)sprout::setbit((T)0, sizeof(T) * 8 - 1), (void)sprout::rstbit((T)0, sizeof(T) * 8 - 1), (void)sprout::flipbit((T)0, sizeof(T) * 8 - 1), (void)sprout::testbit((T)0, sizeof(T) * 8 - 1), (void)sprout::setbitsge((T)0, sizeof(T) * 8 - 1), (void)sprout::setbitsle((T)0, sizeof(T) * 8 - 1), (void)sprout::rstbitsge((T)0, sizeof(T) * 8 - 1), (void)sprout::rstbitsle((T)0, sizeof(T) * 8 - 1), (void)sprout::flipbitsge((T)0, sizeof(T) * 8 - 1), (void)sprout::flipbitsle((T)0, sizeof(T) * 8 - 1), (void)sprout::rotl(std::numeric_limits<T>::min(), 0), (void)sprout::rotr(std::numeric_limits<T>::min(), 0), (void)sprout::rotl(std::numeric_limits<T>::min(), 3), (void)sprout::bit_reverse_in((T)0, 0), (void)sprout::carry_to_exp2(std::numeric_limits<T>::min()), (void)sprout::carry_to_exp2(static_cast<T>(std::numeric_limits<T>::min() + 1)), (void)sprout::carry_to_exp2(std::numeric_limits<T>::max()), true), "");
CE(signed char) CE(short) CE(int) CE(long) CE(long long) CE(unsigned char) CE(unsigned short) CE(unsigned) CE(unsigned long) CE(unsigned long long)
