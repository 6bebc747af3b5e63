// D01: checksums and digests equal their published definition however the message is fed
#include "mc.hpp"
#include "digest.hpp"
#include <sprout/checksum.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
using namespace mc;
namespace so = sprout;
typedef ref::Bytes Bytes;
template<class V> Bytes bytes(V const& v) { return Bytes(v.begin(), v.end()); }
inline Bytes bytes(uint8_t v) { return Bytes(1, v); }
inline Bytes bytes(uint16_t v) { return Bytes{(unsigned char)(v >> 8), (unsigned char)v}; }
inline Bytes bytes(uint32_t v) { return Bytes{(unsigned char)(v >> 24), (unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v}; }
struct MD5 { enum { heavy = 0 }; typedef so::md5 T; static const char* name() { return "md5"; } static Bytes ref_(Bytes const& m) { return ref::md5(m); } };
struct SHA1 { enum { heavy = 1 }; /* the constant form takes about a millisecond per block */ typedef so::sha1 T; static const char* name() { return "sha1"; } static Bytes ref_(Bytes const& m) { return ref::sha1(m); } };
template<int N> struct SUM { enum { heavy = 0 }; typedef so::sum_basic<N> T; static const char* name() { return N == 8 ? "sum8" : N == 16 ? "sum16" : "sum32"; } static Bytes ref_(Bytes const& m) { uint64_t s = 0; for (unsigned char c : m) s += c; Bytes r; for (int i = N / 8 - 1; i >= 0; --i) r.push_back((unsigned char)(s >> 8 * i)); return r; } };
struct XOR { enum { heavy = 0 }; typedef so::xor8 T; static const char* name() { return "xor8"; } static Bytes ref_(Bytes const& m) { unsigned char s = 0; for (unsigned char c : m) s ^= c; return Bytes(1, s); } };
template<class A> const char* nm(const char* s) { return intern(std::string(A::name()) + " " + s); }
inline Bytes msg(int n, int kind) { Bytes m(n); for (int i = 0; i < n; ++i) m[i] = kind == 0 ? (unsigned char)(i * 7 + 3) : kind == 1 ? 0 : kind == 2 ? 0xff : kind == 3 ? 0x80 : (unsigned char)(255 - i * i); return m; }
// the constant form of SHA-1 is instantiated 64 times per iterator type: one type only
struct Span { unsigned char const* f; unsigned char const* l; typedef unsigned char value_type; typedef unsigned char const* iterator; typedef iterator const_iterator; iterator begin() const { return f; } iterator end() const { return l; } };
template<class A> struct Kinds { typedef Bytes R; typedef std::vector<signed char> S; typedef char P; }; template<> struct Kinds<SHA1> { typedef Span R, S; typedef unsigned char P; };
template<class R> R range(unsigned char const* f, unsigned char const* l) { return R(f, l); } template<> Span range<Span>(unsigned char const* f, unsigned char const* l) { return Span{f, l}; }
// every way of feeding one piece: constant forms
template<class A> typename A::T feedc(typename A::T const& s, unsigned char const* f, unsigned char const* l, int form) {
	switch (form) {
	case 0: return s.c_process_block(f, l);
	case 1: return s.c_process_bytes(f, l - f);
	case 2: return s.c_process_range(range<typename Kinds<A>::R>(f, l));
	case 3: return s.process_block(f, l);
	case 4: { typename A::T const t = s; return t.process_bytes((typename Kinds<A>::P const*)f, l - f); }
	case 5: return s.process_range(range<typename Kinds<A>::S>(f, l));
	default: { std::vector<typename A::T> t(1, s); for (; f != l; ++f) t.push_back(typename A::T(form == 6 ? t.back().c_process_byte(*f) : const_cast<typename A::T const&>(t.back()).process_byte(*f))); return t.back(); }
	}
}
enum { CFORMS = 8, MFORMS = 4 };
template<class A> void feedm(typename A::T& s, unsigned char const* f, unsigned char const* l, int form) {
	switch (form) { case 0: s.process_block(f, l); break; case 1: s.process_bytes(f, l - f); break; case 2: s.process_range(Bytes(f, l)); break; default: for (; f != l; ++f) s.process_byte(*f); }
}
template<class A> void check(const char* op, typename A::T const& s, Bytes const& want) { static unsigned turn = 0; ++turn; if (!A::heavy || turn % 2) eq(op, bytes(s.checksum()), want); if (!A::heavy || turn % 2 == 0) eq(op, bytes(s()), want); }
template<class A> void single(Bytes const& m, Bytes const& want) {
	unsigned char const* f = m.data(); unsigned char const* l = f + m.size();
	for (int k = 0; k < CFORMS; ++k) if (!A::heavy || k == (int)(m.size() + 3 * (m.empty() ? 0 : m[0])) % CFORMS || thorough()) check<A>(nm<A>("constant forms"), feedc<A>(typename A::T(), f, l, k), want);
	for (int k = 0; k < MFORMS; ++k) { if (A::heavy && k != (int)(m.size() + (m.empty() ? 0 : m[0])) % MFORMS && !thorough()) continue; typename A::T s; feedm<A>(s, f, l, k); check<A>(nm<A>("mutating forms"), s, want); s.reset(); if (!A::heavy || m.size() % 16 == 0) check<A>(nm<A>("after reset"), s, A::ref_(Bytes())); feedm<A>(s, f, l, (k + 1) % MFORMS); check<A>(nm<A>("fed again after reset"), s, want); }
}
template<class A> void split1(Bytes const& m, int at, Bytes const& want) { unsigned char const* f = m.data(); unsigned char const* l = f + m.size(); unsigned char const* c = f + at; int k = at % CFORMS, j = (at / CFORMS + at) % MFORMS; typename A::T s = feedc<A>(typename A::T(), f, c, k), t; feedm<A>(t, f, c, j); check<A>(nm<A>("two constant pieces"), feedc<A>(s, c, l, (k + j) % CFORMS), want); feedm<A>(s, c, l, (k + j) % MFORMS); check<A>(nm<A>("constant then mutating"), s, want); if (at % 2) check<A>(nm<A>("mutating then constant"), feedc<A>(t, c, l, (k + 1) % CFORMS), want); feedm<A>(t, c, l, (j + 1) % MFORMS); check<A>(nm<A>("two mutating pieces"), t, want); }
template<class A> void split(Bytes const& m, int at, Bytes const& want, bool all) {
	if (A::heavy) { split1<A>(m, at, want); return; }
	unsigned char const* f = m.data(); unsigned char const* l = f + m.size(); unsigned char const* c = f + at;
	for (int k = 0; k < (all ? CFORMS : 2); ++k) for (int j = 0; j < (all ? CFORMS : 1); ++j) { int b = (j + k * 3) % CFORMS; typename A::T s = feedc<A>(typename A::T(), f, c, k); check<A>(nm<A>("two constant pieces"), feedc<A>(s, c, l, b), want); if (j < MFORMS) { feedm<A>(s, c, l, j); check<A>(nm<A>("constant then mutating"), s, want); } }
	for (int k = 0; k < (all ? MFORMS : 1); ++k) for (int j = 0; j < (all ? CFORMS : 2); ++j) { typename A::T s; feedm<A>(s, f, c, k); typename A::T t = feedc<A>(s, c, l, (j + 1) % CFORMS); check<A>(nm<A>("mutating then constant"), t, want); if (j < MFORMS) { typename A::T u(s); feedm<A>(u, c, l, j); check<A>(nm<A>("two mutating pieces"), u, want); check<A>(nm<A>("the copied state is unchanged"), s, A::ref_(Bytes(f, c))); } }
}
template<class A> void all(int maxlen) {
	for (int n = 0; n <= maxlen; ++n) for (int k = 0; k < 5; ++k) { Bytes m = msg(n, k); if (A::heavy && !thorough() && k % 4 != 0) continue; MC_STATE(std::string(A::name()) + " length " + str(n) + " content " + str(k)); Bytes want = A::ref_(m); single<A>(m, want); trace(); }
	for (int x = 0; x < 256; ++x) { Bytes m(1, (unsigned char)x); MC_STATE(std::string(A::name()) + " of one byte " + str(x)); single<A>(m, A::ref_(m)); }
	int const step = A::heavy ? (thorough() ? 8 : 64) : thorough() ? 1 : 5; for (int x = 0; x < 256; x += 1) for (int y = x % step; y < 256; y += step) { Bytes m{(unsigned char)x, (unsigned char)y}; MC_STATE(std::string(A::name()) + " of two bytes " + str(x) + " " + str(y)); check<A>(nm<A>("two bytes"), typename A::T().c_process_block(m.data(), m.data() + 2), A::ref_(m)); }
	int ns[] = {1, 2, 54, 55, 56, 57, 62, 63, 64, 65, 66, 118, 119, 120, 121, 127, 128, 129, 130, 183, 184, 191, 192, 193};
	for (int n : ns) if (n <= maxlen && (!A::heavy || thorough() || n == 3 || n == 55 || n == 56 || n == 63 || n == 64 || n == 65 || n == 119 || n == 128)) { Bytes m = msg(n, 0), want = A::ref_(m); for (int at = 0; at <= n; ++at) { MC_STATE(std::string(A::name()) + " length " + str(n) + " split at " + str(at)); split<A>(m, at, want, !A::heavy && (at <= 1 || n - at <= 1 || (at % 64 >= 54) || at % 64 <= 2)); trace(); } }
	// three pieces around the block boundary
	{ int const n = 131; Bytes m = msg(n, 4), want = A::ref_(m); unsigned char const* f = m.data(); int const cuts[] = {0, 1, 55, 56, 57, 62, 63, 64, 65, 66, 119, 120, 126, 127, 128, 129, 130, 131}; for (int i : cuts) for (int j : cuts) if (i <= j && (!A::heavy || thorough() || (i + j) % 5 == 1)) { MC_STATE(std::string(A::name()) + " length 131 split at " + str(i) + " and " + str(j)); for (int k = 0; k < (A::heavy ? 1 : MFORMS); ++k) { typename A::T s; feedm<A>(s, f, f + i, k); feedm<A>(s, f + i, f + j, (k + 1) % MFORMS); feedm<A>(s, f + j, f + n, (k + 2) % MFORMS); check<A>(nm<A>("three mutating pieces"), s, want); } typename A::T t = feedc<A>(feedc<A>(feedc<A>(typename A::T(), f, f + i, i % CFORMS), f + i, f + j, j % CFORMS), f + j, f + n, 0); check<A>(nm<A>("three constant pieces"), t, want); trace(); } }
	// a checksum taken in the middle does not disturb
	{ typename A::T s; Bytes m; for (int i = 0; i <= 140; ++i) { MC_STATE(std::string(A::name()) + " running checksum after " + str(i)); check<A>(nm<A>("running"), s, A::ref_(m)); s.process_byte((unsigned char)(i * 31)); m.push_back((unsigned char)(i * 31)); } }
}
MC_SECTION(reference) { ok("the reference digests reproduce the published vectors", ref::self_test()); bound("messages", "every length to 200 (thorough 260), five contents"); }
#if PART == 1
MC_SECTION(md5) { all<MD5>(thorough() ? 260 : 200); }
#elif PART == 2
MC_SECTION(sha1) { all<SHA1>(thorough() ? 200 : 135); }
#elif PART == 3
MC_SECTION(sums) { all<SUM<8>>(200); all<SUM<16>>(600); all<SUM<32>>(200); all<XOR>(200);
	for (int n : {65535 / 255, 65535 / 255 + 1, 66000, 70000}) { Bytes m(n, 0xff); MC_STATE("sums of " + str(n) + " bytes 255"); check<SUM<16>>("sum16 wraps", so::sum16().c_process_range(m), SUM<16>::ref_(m)); check<SUM<32>>("sum32 does not wrap", so::sum32().c_process_range(m), SUM<32>::ref_(m)); check<SUM<8>>("sum8 wraps", so::sum8().c_process_range(m), SUM<8>::ref_(m)); }
	for (uint64_t i : {0ull, 1ull, 255ull, 256ull, 0xfffeull, 0xffffull, 0xfffffffeull, 0xffffffffull}) { MC_STATE("sums from " + str(i)); eq("sum8 initial", (int)so::sum8(i).c_process_byte(3)(), (int)(uint8_t)(i + 3)); eq("sum16 initial", (int)so::sum16(i).c_process_byte(3)(), (int)(uint16_t)(i + 3)); eq("sum32 initial", so::sum32(i).c_process_byte(3)(), (uint32_t)(i + 3)); eq("xor8 initial", (int)so::xor8(i).c_process_byte(3)(), (int)(uint8_t)(i ^ 3)); so::sum16 s; s.process_byte(9); s.reset(i); s.process_byte(3); eq("sum16 reset", (int)s(), (int)(uint16_t)(i + 3)); so::xor8 x; x.process_byte(9); x.reset(i); x.process_byte(3); eq("xor8 reset", (int)x(), (int)(uint8_t)(i ^ 3)); }
}
MC_SECTION(bits) {
	// MD5 is defined for every number of bits
	for (int n = 0; n <= (thorough() ? 1100 : 530); ++n) for (int kind = 0; kind < 2; ++kind) { std::vector<bool> b; for (int i = 0; i < n; ++i) b.push_back(kind ? (i * i / 3) % 2 == 0 : i % 3 != 1); MC_STATE("md5 of " + str(n) + " bits, content " + str(kind)); Bytes want = ref::md5(b); so::md5 s; for (bool x : b) s.process_bit(x); check<MD5>("md5 process_bit", s, want);
		so::md5 t; int i = 0; for (; i + 5 <= n; i += 5) { int v = 0xa0 << 5; for (int j = 0; j < 5; ++j) v = v << 1 | b[i + j]; t.process_bits((uint8_t)v, 5); } for (; i < n; ++i) t.process_bit(b[i]); check<MD5>("md5 process_bits", t, want);
		{ std::vector<so::md5> u(1); int k = 0; if (n % 3) { for (; k < n % 3; ++k) u.push_back(so::md5(u.back().c_process_bit(b[k]))); } for (; k + 8 <= n; k += 8) { int v = 0; for (int j = 0; j < 8; ++j) v = v << 1 | b[k + j]; u.push_back(so::md5((k / 8) % 2 ? u.back().c_process_byte((uint8_t)v) : u.back().c_process_bits((uint8_t)v, 8))); } for (; k < n; ++k) u.push_back(so::md5(u.back().c_process_bits(b[k], 1))); check<MD5>("md5 of bits then bytes, constant forms", u.back(), want); }
		{ so::md5 u; int k = 0; for (; k < n % 7 && k < n; ++k) u.process_bit(b[k]); for (; k + 8 <= n; k += 8) { int v = 0; for (int j = 0; j < 8; ++j) v = v << 1 | b[k + j]; u.process_byte((uint8_t)v); } for (; k < n; ++k) u.process_bits(b[k], 1); check<MD5>("md5 of bits then bytes", u, want); } trace(); }
}
#elif PART >= 4
template<class Ch> std::basic_string<Ch> text(std::string const& s, Ch mul) { std::basic_string<Ch> r; for (char c : s) r.push_back((Ch)((unsigned char)c * mul)); return r; }
template<class Ch> Bytes wide(std::basic_string<Ch> const& s) { Bytes b; for (Ch c : s) for (int i = (int)sizeof(Ch) - 1; i >= 0; --i) b.push_back((unsigned char)((unsigned long)c >> 8 * i)); return b; }
template<std::size_t N, class Ch> so::basic_string<Ch, N> ss(std::basic_string<Ch> const& s) { so::basic_string<Ch, N> r; for (Ch c : s) r.push_back(c); return r; }
template<class Ch> void texts(Ch mul) {
	for (int n = 0; n <= 70; n += n < 5 || n > 55 ? 1 : 7) { std::string base; for (int i = 0; i < n; ++i) base.push_back((char)(i == n / 2 ? 1 : 'a' + i % 26)); auto t = text<Ch>(base, mul); Bytes b = wide(t); MC_STATE("text of " + str(n) + " characters of " + str((int)sizeof(Ch)) + " bytes times " + str((int)mul)); Ch const* f = t.c_str(); auto s = ss<70>(t);
#if PART == 5
		eq("make_md5(text)", bytes(so::make_md5(f)), ref::md5(b)); eq("make_md5(string)", bytes(so::make_md5(s)), ref::md5(b)); eq("make_md5(range)", bytes(so::make_md5(f, f + n)), ref::md5(b)); eq("_md5", bytes(so::literals::checksum::operator"" _md5(f, n)), ref::md5(b));
#endif
#if PART == 4
		eq("make_sha1(text)", bytes(so::make_sha1(f)), ref::sha1(b)); eq("make_sha1(string)", bytes(so::make_sha1(s)), ref::sha1(b)); eq("make_sha1(range)", bytes(so::make_sha1(f, f + n)), ref::sha1(b)); eq("_sha1", bytes(so::literals::checksum::operator"" _sha1(f, n)), ref::sha1(b));
#else
		eq("make_sum8", bytes(so::make_sum8(f)), SUM<8>::ref_(b)); eq("make_sum8(string)", bytes(so::make_sum8(s)), SUM<8>::ref_(b)); eq("make_sum8(range)", bytes(so::make_sum8(f, f + n)), SUM<8>::ref_(b)); eq("_sum8", bytes(so::literals::checksum::operator"" _sum8(f, n)), SUM<8>::ref_(b));
		eq("make_sum16", bytes(so::make_sum16(f)), SUM<16>::ref_(b)); eq("make_sum16(string)", bytes(so::make_sum16(s)), SUM<16>::ref_(b)); eq("make_sum16(range)", bytes(so::make_sum16(f, f + n)), SUM<16>::ref_(b)); eq("_sum16", bytes(so::literals::checksum::operator"" _sum16(f, n)), SUM<16>::ref_(b));
		eq("make_sum32", bytes(so::make_sum32(f)), SUM<32>::ref_(b)); eq("make_sum32(string)", bytes(so::make_sum32(s)), SUM<32>::ref_(b)); eq("make_sum32(range)", bytes(so::make_sum32(f, f + n)), SUM<32>::ref_(b)); eq("_sum32", bytes(so::literals::checksum::operator"" _sum32(f, n)), SUM<32>::ref_(b));
		eq("make_xor8", bytes(so::make_xor8(f)), XOR::ref_(b)); eq("make_xor8(string)", bytes(so::make_xor8(s)), XOR::ref_(b)); eq("make_xor8(range)", bytes(so::make_xor8(f, f + n)), XOR::ref_(b)); eq("_xor8", bytes(so::literals::checksum::operator"" _xor8(f, n)), XOR::ref_(b));
#endif
		trace(); }
}
MC_SECTION(texts) {
	texts<char>(1); texts<char16_t>(256);
#if PART == 5
	texts<char32_t>(256); texts<wchar_t>(1); texts<wchar_t>(256); texts<char16_t>(257); texts<char32_t>(1); texts<char32_t>(0x010001);
#endif
}
// the same in constant expressions
namespace ce {
	template<class A, std::size_t N> constexpr bool same(so::array<A, N> const& a, so::array<A, N> const& b, std::size_t i = 0) { return i == N || (a[i] == b[i] && same(a, b, i + 1)); }
	typedef so::array<std::uint8_t, 16> M; 
	static_assert(same(so::make_md5("abc"), M{{0x90, 0x01, 0x50, 0x98, 0x3c, 0xd2, 0x4f, 0xb0, 0xd6, 0x96, 0x3f, 0x7d, 0x28, 0xe1, 0x7f, 0x72}}), "md5");
	static_assert(so::make_sum8("abc") == (('a' + 'b' + 'c') & 255) && so::make_sum16("abc") == 'a' + 'b' + 'c' && so::make_xor8("abc") == ('a' ^ 'b' ^ 'c'), "sums");
}
#endif
