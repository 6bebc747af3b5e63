// B03: byte order conversions and byte views are exact
#include "mc.hpp"
#include "iters.hpp"
#if defined(MC_PDP) || defined(MC_BIG) // the code for hosts of another byte order, judged against that order
#include <sprout/predef/detail/endian_compat.hpp>
#undef SPROUT_LITTLE_ENDIAN
#ifdef MC_PDP
#define SPROUT_PDP_ENDIAN
#else
#define SPROUT_BIG_ENDIAN
#endif
#endif
#include <sprout/net.hpp>
#include <sprout/endian_traits.hpp>
#include <sprout/iterator/bytes_iterator.hpp>
#include <sprout/array.hpp>
#include <cstring>
#include <list>
#include <limits>
using namespace mc; typedef std::string S; typedef unsigned char B; typedef unsigned long long u64;
#ifdef MC_PDP
static const char* order = "pdp"; template<class T> std::vector<B> host(T v) { std::vector<B> r; for (int w = sizeof(T) / 2; w-- > 0;) { r.push_back(B(v >> w * 16)); r.push_back(B(v >> (w * 16 + 8))); } return r; }
#elif defined(MC_BIG)
static const char* order = "big"; template<class T> std::vector<B> host(T v) { std::vector<B> r; for (size_t i = sizeof(T); i-- > 0;) r.push_back(B(v >> i * 8)); return r; }
#else
static const char* order = "little"; template<class T> std::vector<B> host(T v) { std::vector<B> r; for (size_t i = 0; i < sizeof(T); ++i) r.push_back(B(v >> i * 8)); return r; }
#endif
template<class T> std::vector<B> net(T v) { std::vector<B> r; for (size_t i = sizeof(T); i-- > 0;) r.push_back(B(v >> i * 8)); return r; }
template<class T> S bytes(std::vector<B> const& v) { S s; for (B b : v) { char t[4]; std::snprintf(t, 4, "%02x", b); s += t; } return s; }
template<class T> void conv(const char* n, T v) { // as stored by a host of this order, the converted value has the network's bytes; and back
	MC_STATE(S(n) + " " + str((u64)v)); trace(); eq("hton", bytes<T>(host((sprout::net::hton)(v))), bytes<T>(net(v))); eq("ntoh", bytes<T>(net((sprout::net::ntoh)(v))), bytes<T>(host(v))); eq("ntoh(hton)", (u64)(sprout::net::ntoh)((sprout::net::hton)(v)), (u64)v); eq("hton(ntoh)", (u64)(sprout::net::hton)((sprout::net::ntoh)(v)), (u64)v);
}
static std::vector<u64> values() { std::vector<u64> r; static const B bs[] = {0, 1, 0x7f, 0x80, 0xff}; for (int i = 0; i < 64; ++i) { r.push_back(1ull << i); r.push_back(~(1ull << i)); } for (int i = 0; i < 8; ++i) for (int v = 0; v < 256; ++v) { r.push_back((u64)v << 8 * i); r.push_back(~((u64)v << 8 * i)); r.push_back(0x0102030405060708ull ^ (u64)v << 8 * i); }
	for (int a = 0; a < 8; ++a) for (int b = 0; b < a; ++b) for (B x : bs) for (B y : bs) { r.push_back((u64)x << 8 * a | (u64)y << 8 * b); r.push_back(0x8182838485868788ull ^ (u64)x << 8 * a ^ (u64)y << 8 * b); } return r; }
MC_SECTION(b03_net) { bound("byte order", S(order) + "-endian host: every 16-bit value, every value of one byte in every place, every pair of bytes from {0 1 7f 80 ff}, every single bit");
	for (unsigned v = 0; v < 65536; ++v) { conv<std::uint16_t>("16", v); MC_STATE("short " + str(v)); trace(); eq("htons", (sprout::net::htons)(v), (sprout::net::hton)((std::uint16_t)v)); eq("ntohs", (sprout::net::ntohs)(v), (sprout::net::ntoh)((std::uint16_t)v)); }
	for (u64 v : values()) { conv<std::uint32_t>("32", (std::uint32_t)v); conv<std::uint64_t>("64", v); conv<std::uint32_t>("32 high", (std::uint32_t)(v >> 32)); conv<unsigned short>("16", (unsigned short)v); std::uint32_t w = (std::uint32_t)v; MC_STATE("long " + str(w)); trace(); eq("htonl", (sprout::net::htonl)(w), (sprout::net::hton)(w)); eq("ntohl", (sprout::net::ntohl)(w), (sprout::net::ntoh)(w)); }
}
#if !defined(MC_PDP) && !defined(MC_BIG)
// bytes of integers
template<class T> void traits(const char* n, T v) { typedef typename std::make_unsigned<T>::type U; std::vector<B> be = net((U)v), le(be.rbegin(), be.rend()); MC_STATE(S(n) + " " + str((long long)v)); trace(); eq("size", sprout::endian_traits<T>::size(), sizeof(T));
	for (size_t i = 0; i < sizeof(T); ++i) { eq("big get_byte", (int)sprout::big_endian_traits<T>::get_byte(v, i), (int)be[i]); eq("little get_byte", (int)sprout::little_endian_traits<T>::get_byte(v, i), (int)le[i]); eq("get_byte", (int)sprout::endian_traits<T>::get_byte(v, i), (int)be[i]);
		for (int x : {0, 1, 0x7f, 0x80, 0xff}) { T t = v; sprout::big_endian_traits<T>::set_byte(t, i, (B)x); std::vector<B> w = be; w[i] = (B)x; eq("big set_byte", bytes<T>(net((U)t)), bytes<T>(w)); t = v; sprout::little_endian_traits<T>::set_byte(t, i, (B)x); w = le; w[i] = (B)x; std::vector<B> g = net((U)t); eq("little set_byte", bytes<T>(std::vector<B>(g.rbegin(), g.rend())), bytes<T>(w)); } } }
MC_SECTION(b03_traits) { bound("bytes", "every 8- and 16-bit value, the value family for 32 and 64 bits, signed and unsigned, every byte read and written"); for (int v = 0; v < 256; ++v) { traits<signed char>("int8", (signed char)v); traits<B>("uint8", (B)v); traits<char>("char", (char)v); } for (int v = 0; v < 65536; ++v) { traits<short>("int16", (short)v); traits<unsigned short>("uint16", (unsigned short)v); }
	for (u64 v : values()) { traits<int>("int", (int)v); traits<unsigned>("unsigned", (unsigned)v); traits<long>("long", (long)v); traits<unsigned long>("unsigned long", v); traits<long long>("long long", (long long)v); traits<unsigned long long>("unsigned long long", v); } }
// byte iterators over every kind of iterator: walking, jumping, comparing
template<class It, class T> struct Walk { typedef sprout::bytes_iterator<It> BI;
	template<class X> static void fwd(const char* n, X f, X l, std::vector<B> const& want) { MC_STATE(S(n)); trace(); std::vector<B> g; for (X i = f; i != l && g.size() < 1000; ++i) g.push_back(*i); eq("forward", bytes<T>(g), bytes<T>(want)); g.clear(); for (X i = f; i != l && g.size() < 1000;) g.push_back(*i++); eq("forward (post)", bytes<T>(g), bytes<T>(want)); g.clear(); for (X i = f; i != l && g.size() < 1000; i = sprout::next(i)) g.push_back(*i); eq("next", bytes<T>(g), bytes<T>(want)); }
	template<class X> static void bidi(const char* n, X f, X l, std::vector<B> want) { MC_STATE(S(n)); trace(); std::vector<B> g; std::reverse(want.begin(), want.end()); for (X i = l; i != f && g.size() < 1000;) g.push_back(*--i); eq("backward", bytes<T>(g), bytes<T>(want)); g.clear(); for (X i = l; i != f && g.size() < 1000;) { i--; g.push_back(*i); } eq("backward (post)", bytes<T>(g), bytes<T>(want)); g.clear(); for (X i = l; i != f && g.size() < 1000;) { i = sprout::prev(i); g.push_back(*i); } eq("prev", bytes<T>(g), bytes<T>(want)); }
	template<class X> static void ra(const char* n, X f, std::vector<B> const& want) { long N = (long)want.size(); for (long a = 0; a <= N; ++a) for (long b = 0; b <= N; ++b) { MC_STATE(S(n) + " from " + str(a) + " to " + str(b)); trace(); X i = f + a, j = f + b; eq("difference", (long)(j - i), b - a); eq("jump", i + (b - a) == j, true); eq("jump back", i - (a - b) == j, true); eq("jump (n + it)", (b - a) + i == j, true); X k = i; k += b - a; eq("+=", k == j, true); k = i; k -= a - b; eq("-=", k == j, true); eq("sprout::next", sprout::next(i, b - a) == j, true); eq("==", i == j, a == b); eq("!=", i != j, a != b); eq("<", i < j, a < b); eq(">", i > j, a > b); eq("<=", i <= j, a <= b); eq(">=", i >= j, a >= b); if (b < N) { eq("index", (int)i[b - a], (int)want[b]); eq("value", (int)*j, (int)want[b]); } k = i; X m = j; swap(k, m); eq("swap", k == j && m == i, true); } }
};
template<class T> void views(const char* n, std::vector<T> const& v) { typedef typename std::make_unsigned<T>::type U; std::vector<B> be, le; for (T x : v) { std::vector<B> b = net((U)x); be.insert(be.end(), b.begin(), b.end()); le.insert(le.end(), b.rbegin(), b.rend()); }
	T const* p = v.data(); T const* q = p + v.size(); S s = S(n) + " x " + str(v.size()); typedef Walk<T const*, T> W; S d = s + " default", b = s + " big", l = s + " little";
	W::fwd(d.c_str(), sprout::make_bytes_iterator(p), sprout::make_bytes_iterator(q), be); W::bidi(d.c_str(), sprout::make_bytes_iterator(p), sprout::make_bytes_iterator(q), be); W::ra(d.c_str(), sprout::make_bytes_iterator(p), be);
	W::fwd(b.c_str(), sprout::make_big_bytes_iterator(p), sprout::make_big_bytes_iterator(q), be); W::bidi(b.c_str(), sprout::make_big_bytes_iterator(p), sprout::make_big_bytes_iterator(q), be); W::ra(b.c_str(), sprout::make_big_bytes_iterator(p), be);
	W::fwd(l.c_str(), sprout::make_little_bytes_iterator(p), sprout::make_little_bytes_iterator(q), le); W::bidi(l.c_str(), sprout::make_little_bytes_iterator(p), sprout::make_little_bytes_iterator(q), le); W::ra(l.c_str(), sprout::make_bytes_iterator(p, sprout::little_endian_traits<T>()), le);
	std::list<T> li(v.begin(), v.end()); S t = s + " list"; W::fwd(t.c_str(), sprout::make_bytes_iterator(li.begin()), sprout::make_bytes_iterator(li.end()), be); W::bidi(t.c_str(), sprout::make_little_bytes_iterator(li.begin()), sprout::make_little_bytes_iterator(li.end()), le);
}
template<class T> void allviews(const char* n) { static const T vs[] = {(T)0x0102030405060708ull, (T)0xf1e2d3c4b5a69788ull, (T)0x8000000000000000ull}; for (int k = 0; k <= 3; ++k) views<T>(n, std::vector<T>(vs, vs + k)); }
MC_SECTION(b03_views) { bound("byte iterators", "0-3 elements of each width, every start and jump, forward, backward and random access"); allviews<signed char>("int8"); allviews<B>("uint8"); allviews<char>("char"); allviews<short>("int16"); allviews<unsigned short>("uint16"); allviews<int>("int"); allviews<unsigned>("unsigned"); allviews<long>("long"); allviews<u64>("unsigned long long"); }
static_assert(sprout::big_endian_traits<u64>::get_byte(0x0102030405060708ull, 0) == 1 && sprout::net::detail::reverse<std::uint16_t>(0x0102) == 0x0201, "");
#endif
