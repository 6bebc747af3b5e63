// R01: random engines against the standard library's and Boost's engines of the same name and against plain modular arithmetic.
#include "mc.hpp"
#include <sprout/random.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/seed_seq.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/xor_combine.hpp>
#include <random>
#include <sstream>
#include <vector>
using namespace mc;
namespace sr = sprout::random;
namespace br = boost::random;
typedef unsigned long long ull;
typedef unsigned __int128 u128;
template<class E> std::string text(E const& e) { std::ostringstream os; os << e; return os.str(); }
template<class E> void load(E& e, std::string const& s) { std::istringstream is(s); is >> e; ok("state read back", !is.fail()); }
template<class E> ull draw_const(E& e) { E const& c = e; auto r = c(); ull v = r.result(); E n = r.next(); e = n; return v; }
static std::vector<unsigned> const& seeds() { static std::vector<unsigned> s; if (s.empty()) { for (unsigned i = 0; i < 8; ++i) s.push_back(i); for (unsigned b = 2; b < 32; ++b) { s.push_back(1u << b); if (thorough()) { s.push_back((1u << b) + 1); s.push_back((1u << b) - 1); } } for (unsigned m : {2147483647u, 2147483563u, 2147483399u, 714025u, 4294967295u}) { s.push_back(m - 1); s.push_back(m); if (m + 1) s.push_back(m + 1); } for (unsigned x : {341u, 5489u, 4357u, 123456789u, 3141592653u, 2863311530u}) s.push_back(x); } return s; }
// draws
template<class E, class O> void sequence(char const* name, std::size_t n) {
	for (unsigned s : seeds()) { MC_STATE(std::string(name) + " seeded with " + str(s)); E e(s), c(s); O o(s); eq("min", (ull)e.min(), (ull)(o.min)()); eq("max", (ull)e.max(), (ull)(o.max)());
		for (std::size_t i = 0; i < n; ++i) { ull w = o(); ull v = e(), u = draw_const(c); if (v != w || u != w) { MC_STATE(std::string(name) + " seeded with " + str(s) + ", draw " + str(i)); eq("draw", v, w); eq("constant draw", u, w); break; } hit("draw", hval(v)); } ok("engines after the same draws", e == c && !(e != c)); trace(); }
	MC_STATE(std::string(name) + " by default"); E e; O o; for (int i = 0; i < 5; ++i) eq("default draw", (ull)e(), (ull)o()); trace();
}
template<class E> auto reseed(E& e, unsigned s, int) -> decltype(e.seed((typename E::result_type)s), bool()) { e.seed((typename E::result_type)s); return true; }
template<class E> bool reseed(E&, unsigned, long) { return false; }
template<class E> auto skip(E& e, ull z, int) -> decltype(e.discard(z), bool()) { e.discard(z); return true; }
template<class E> bool skip(E&, ull, long) { return false; }
// histories
template<class E, class O> void histories(char const* name, unsigned seed, std::size_t warm, int depth) {
	char const* const names[] = {"draw", "constant draw", "copy", "assign to an engine elsewhere", "write and read", "reseed", "discard three", "result as iterator"};
	E e0(seed); O o0(seed); for (std::size_t i = 0; i < warm; ++i) { e0(); o0(); }
	sequences_upto(depth, 8, [&](std::vector<int> const& ops) {
		std::string d; for (int k : ops) d += std::string(d.empty() ? "" : ", ") + names[k]; MC_STATE(std::string(name) + " after " + str(warm) + " draws: " + d);
		E e(e0); O o(o0);
		for (int k : ops) switch (k) {
			case 0: eq("draw in a history", (ull)e(), (ull)o()); break;
			case 1: eq("constant draw in a history", draw_const(e), (ull)o()); break;
			case 2: { E f(e); f(); E g(e); eq("copy untouched", (ull)g(), (ull)o()); e = g; break; }
			case 3: { E f(99u); for (int i = 0; i < 3; ++i) f(); f = e; ok("assigned equals", f == e); eq("draw of assigned", (ull)f(), (ull)o()); e = f; break; }
			case 4: { E f; f(); load(f, text(e)); ok("restored equals", f == e && e == f && !(f != e)); e = f; break; }
			case 5: if (reseed(e, 77, 0)) o = O(77u); break;
			case 6: if (skip(e, 3, 0)) o.discard(3); break;
			case 7: { E const& c = e; auto r = c(); eq("result as iterator", (ull)*r, (ull)o()); ++r; eq("next result as iterator", (ull)*r, (ull)o()); e = r.next(); break; } }
		eq("draw after a history", (ull)e(), (ull)o()); eq("text after a history", text(e), text(o)); trace();
	});
}
// comparison of all pairs of positions, one side possibly restored from text
template<class E> void comparisons(char const* name, std::vector<std::size_t> const& at) {
	std::vector<E> v, r; std::size_t last = 0; E e(12345u); for (std::size_t p : at) { for (; last < p; ++last) e(); v.push_back(e); E f; load(f, text(e)); r.push_back(f); }
	E const other(54321u);
	for (std::size_t i = 0; i < at.size(); ++i) for (std::size_t j = 0; j < at.size(); ++j) { MC_STATE(std::string(name) + " positions " + str(at[i]) + " and " + str(at[j])); eq("==", v[i] == v[j], i == j); eq("!=", v[i] != v[j], i != j); eq("== of restored", r[i] == v[j], i == j); eq("== with restored", v[j] == r[i], i == j); if (i == j) { E a(v[i]), b(r[i]); for (int k = 0; k < 3; ++k) { a(); b(); ok("== moving together", a == b && b == a); } ok("== of another seed", !(v[i] == other)); } trace(); }
}
static std::vector<std::size_t> near(std::size_t n) { std::vector<std::size_t> r = {0, 1, 2, 3}; for (std::size_t b : {n / 2, n, 2 * n}) for (int d = -2; d <= 2; ++d) r.push_back(b + d); if (thorough()) for (std::size_t i = 5; i < n / 2 - 2; i += 7) r.push_back(i); std::sort(r.begin(), r.end()); return r; }
static std::vector<std::size_t> upto(std::size_t n) { std::vector<std::size_t> r; for (std::size_t i = 0; i < n; ++i) r.push_back(i); return r; }
#define ENGINE(n, S, O, len, warm, depth, pos) MC_SECTION(n##_draws) { sequence<S, O>(#n, len); } MC_SECTION(n##_histories) { histories<S, O>(#n, 1234567u, 0, depth + (thorough() ? 1 : 0)); if (warm) histories<S, O>(#n, 1234567u, warm, depth); } MC_SECTION(n##_comparisons) { comparisons<S>(#n, pos); }
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
ENGINE(minstd_rand0, sprout::minstd_rand0, br::minstd_rand0, 300, 0, 4, upto(40))
ENGINE(minstd_rand, sprout::minstd_rand, br::minstd_rand, 300, 0, 4, upto(40))
ENGINE(rand48, sprout::rand48, br::rand48, 300, 0, 4, upto(40))
ENGINE(ecuyer1988, sprout::ecuyer1988, br::ecuyer1988, 300, 0, 4, upto(40))
ENGINE(hellekalek1995, sprout::hellekalek1995, br::hellekalek1995, 60, 0, 4, upto(40))
ENGINE(taus88, sprout::taus88, br::taus88, 300, 0, 4, upto(40))
ENGINE(knuth_b, sprout::knuth_b, br::knuth_b, 600, 0, 3, upto(20))
ENGINE(kreutzer1986, sprout::kreutzer1986, br::kreutzer1986, 600, 0, 3, upto(20))
template<class E, class O> void standard(char const* name, std::size_t n) { for (unsigned s : seeds()) { MC_STATE(std::string(name) + " of the standard library seeded with " + str(s)); E e(s); O o(s); for (std::size_t i = 0; i < n; ++i) eq("draw of the standard engine", (ull)e(), (ull)o()); trace(); } }
MC_SECTION(standard_engines) { standard<sprout::minstd_rand0, std::minstd_rand0>("minstd_rand0", 100); standard<sprout::minstd_rand, std::minstd_rand>("minstd_rand", 100); standard<sprout::knuth_b, std::knuth_b>("knuth_b", 600); standard<sprout::default_random_engine, std::minstd_rand0>("default_random_engine", 50); }
#endif
#if PART == 0 || PART == 2
ENGINE(mt19937, sprout::mt19937, br::mt19937, 1300, 622, 3, near(624))
MC_SECTION(standard_mt) { for (unsigned s : seeds()) { MC_STATE("mt19937 of the standard library seeded with " + str(s)); sprout::mt19937 e(s); std::mt19937 o(s); for (int i = 0; i < 1900; ++i) eq("draw of the standard engine", (ull)e(), (ull)o()); trace(); } }
#endif
#if PART == 0 || PART == 3
ENGINE(mt11213b, sprout::mt11213b, br::mt11213b, 1100, 349, 3, near(351))
ENGINE(mt19937_64, sprout::mt19937_64, br::mt19937_64, 700, 310, 3, near(312))
MC_SECTION(standard_mt64) { for (ull h : {0ull, 1ull, 0xffffffffull, 0x80000000ull}) for (unsigned s : seeds()) { ull x = h << 32 | s; MC_STATE("mt19937_64 of the standard library seeded with " + str(x)); sprout::mt19937_64 e(x); std::mt19937_64 o(x); for (int i = 0; i < 700; ++i) eq("draw of the standard engine", (ull)e(), (ull)o()); trace(); } }
// small twisters, every position
typedef sr::mersenne_twister_engine<std::uint32_t, 32, 5, 2, 7, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> T5; typedef br::mersenne_twister_engine<std::uint32_t, 32, 5, 2, 7, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> B5;
typedef sr::mersenne_twister_engine<std::uint32_t, 32, 17, 9, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253> T17; typedef br::mersenne_twister_engine<std::uint32_t, 32, 17, 9, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253> B17;
typedef sr::mersenne_twister_engine<std::uint64_t, 16, 20, 13, 5, 0xb0df, 5, 0xffff, 3, 0x5680, 7, 0x6000, 9, 25173> T20; typedef br::mersenne_twister_engine<std::uint64_t, 16, 20, 13, 5, 0xb0df, 5, 0xffff, 3, 0x5680, 7, 0x6000, 9, 25173> B20;
ENGINE(twister5, T5, B5, 60, 3, 4, upto(25))
ENGINE(twister17, T17, B17, 120, 15, 4, upto(60))
ENGINE(twister20, T20, B20, 120, 18, 4, upto(60))
#endif
#if PART == 0 || PART == 4
// small and awkward congruential engines, exhaustively
template<class I, I a, I c, I m> void lcg(bool full) {
	typedef sr::linear_congruential_engine<I, a, c, m> E; u128 M = m == 0 ? (u128)(typename std::make_unsigned<I>::type)std::numeric_limits<typename std::make_unsigned<I>::type>::max() + 1 : (u128)m; std::string d = "engine " + str((long long)a) + "x+" + str((long long)c) + " mod " + str((ull)M);
	auto ref = [&](ull x, ull z) { u128 ra = (u128)a % M, rc = (u128)c % M, A = 1, C = 0; for (; z; z >>= 1) { if (z & 1) { C = (u128)(((ra % M) * (C % M)) % M + rc) % M; A = ra * A % M; } rc = (ra * rc % M + rc) % M; ra = ra * ra % M; } return (ull)((A * x % M + C) % M); };
	std::vector<ull> xs, zs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 100, 1000, 65535, (ull)M - 1, (ull)M, (ull)M + 1, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull};
	if (full) { for (ull x = 0; x < (ull)M; ++x) xs.push_back(x); for (ull z = 11; z < 3 * (ull)M; ++z) zs.push_back(z); } else { for (ull x : {0ull, 1ull, 2ull, 12345ull, (ull)(M / 2), (ull)M - 2, (ull)M - 1}) xs.push_back(x); for (ull z = 11; z < 70; ++z) zs.push_back(z); }
	for (ull x0 : xs) { ull x = c == 0 && x0 == 0 ? 1 : x0; MC_STATE(d + " from " + str(x0)); E e((I)x0); { E f(e); eq("small draw", (ull)f(), ref(x, 1)); ok("small state", text(f) == text((ull)ref(x, 1)) || sizeof(I) == 1); E g(e); eq("small constant draw", draw_const(g), ref(x, 1)); ok("small ==", f == g); ok("small range", f() <= f.max() && (f.min)() == (I)(c == 0)); }
		for (ull z : zs) { MC_STATE(d + " from " + str(x0) + " discarding " + str(z)); E f(e); f.discard(z); E const& ce = e; E g(ce.discard(z)); ok("discard forms agree", f == g); eq("draw after discard", (ull)f(), ref(ref(x, 1), z)); eq("draw after constant discard", (ull)g(), ref(ref(x, 1), z)); trace(); } }
	if (m != 0) { E f((I)(m)), g((I)0); ok("seed of the modulus", f == g); }
}
MC_SECTION(lcg_small) {
	lcg<std::uint32_t, 5, 3, 16>(true); lcg<std::uint32_t, 9, 0, 16>(true); lcg<std::uint32_t, 3, 5, 16>(true); lcg<std::uint32_t, 7, 2, 13>(true); lcg<std::uint32_t, 12, 0, 13>(true); lcg<std::uint32_t, 2, 1, 13>(true); lcg<std::uint32_t, 6, 5, 10>(true); lcg<std::uint32_t, 7, 3, 12>(true); lcg<std::uint32_t, 4, 1, 9>(true); lcg<std::uint32_t, 10, 7, 27>(true); lcg<std::uint32_t, 13, 5, 36>(true); lcg<std::uint32_t, 31, 11, 60>(true); lcg<std::uint32_t, 19, 1, 54>(true);
	lcg<std::uint16_t, 75, 74, 251>(true); lcg<std::uint8_t, 61, 11, 128>(true); lcg<std::uint8_t, 93, 7, 251>(true); lcg<int, 9, 4, 31>(true); lcg<int, 25, 6, 32>(true); lcg<short, 13, 9, 97>(true); lcg<long, 21, 20, 50>(true); lcg<std::uint64_t, 22, 17, 63>(true); lcg<std::uint32_t, 25, 16, 48>(true);
}
MC_SECTION(lcg_large) {
	lcg<std::uint32_t, 1664525u, 1013904223u, 0>(false); lcg<std::uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0>(false); lcg<std::uint32_t, 22695477u, 1u, 0>(false); lcg<std::uint64_t, 25214903917ull, 11ull, 1ull << 48>(false); lcg<std::uint64_t, 44485709377909ull, 0, 1ull << 48>(false); lcg<std::uint64_t, 1103515245ull, 12345ull, 1ull << 31>(false); lcg<int, 16807, 0, 2147483647>(false); lcg<int, 48271, 0, 2147483647>(false); lcg<std::uint32_t, 950706376u, 0, 2147483647u>(false); lcg<std::uint32_t, 69069u, 12345u, 4294967291u>(false); lcg<std::uint64_t, 1366, 150889, 714025>(false); lcg<std::uint64_t, 3877ull, 29573ull, 139968ull>(false); lcg<std::int64_t, 16807, 12345, 2147483647>(false); lcg<std::uint32_t, 4294967290u, 4294967289u, 4294967291u>(false); lcg<std::uint16_t, 40014u, 7u, 65521u>(false); lcg<short, 16807, 0, 32749>(false); lcg<std::uint16_t, 28629u, 12345u, 0>(false);
}
template<class I, I a, I b, I p> void icg() { typedef sr::inversive_congruential_engine<I, a, b, p> E; for (ull x0 = 0; x0 < (ull)p; ++x0) { ull x = b == 0 && x0 == 0 ? 1 : x0; E e((I)x0); for (int k = 0; k < 12; ++k) { MC_STATE("inversive " + str((long long)a) + "/x+" + str((long long)b) + " mod " + str((long long)p) + " from " + str(x0) + " draw " + str(k)); ull inv = 0; for (ull y = 1; y < (ull)p; ++y) if (x * y % (ull)p == 1) inv = y; x = ((ull)a * inv + (ull)b) % (ull)p; E f(e); eq("inversive draw", (ull)e(), x); eq("inversive constant draw", draw_const(f), x); ok("inversive ==", e == f); trace(); } } }
MC_SECTION(inversive_small) { icg<std::uint32_t, 3, 5, 7>(); icg<std::uint32_t, 2, 1, 11>(); icg<std::uint32_t, 9, 0, 13>(); icg<std::uint32_t, 22, 21, 101>(); icg<int, 5, 7, 31>(); icg<std::uint64_t, 18, 11, 127>(); icg<short, 6, 3, 53>(); icg<std::uint8_t, 100, 99, 251>(); icg<std::uint32_t, 1, 1, 2>(); icg<std::uint32_t, 2, 2, 3>(); }
template<class U, int w, int k, int q, int s> void lfs() { typedef sr::linear_feedback_shift_engine<U, w, k, q, s> E; ull mask = w == 64 ? ~0ull : (1ull << w) - 1; std::vector<ull> xs; if (w <= 10) for (ull x = 0; x <= mask; ++x) xs.push_back(x); else for (unsigned x : seeds()) xs.push_back(x & mask); for (ull x0 : xs) { ull x = x0 < (1ull << (w - k)) ? x0 + (1ull << (w - k)) : x0; E e((U)x0); for (int i = 0; i < 40; ++i) { MC_STATE("shift register " + str(w) + " " + str(k) + " " + str(q) + " " + str(s) + " from " + str(x0) + " draw " + str(i)); ull b = (((x << q) ^ x) & mask) >> (k - s); x = (((x & (mask << (w - k)) & mask) << s) ^ b) & mask; E f(e); eq("register draw", (ull)e(), x); eq("register constant draw", draw_const(f), x); ok("register range", e == f && x <= (ull)e.max()); trace(); } } }
MC_SECTION(shift_registers) { lfs<std::uint32_t, 32, 31, 13, 12>(); lfs<std::uint32_t, 32, 29, 2, 4>(); lfs<std::uint32_t, 32, 28, 3, 17>(); lfs<std::uint8_t, 8, 7, 3, 2>(); lfs<std::uint8_t, 8, 6, 1, 5>(); lfs<std::uint64_t, 64, 63, 5, 24>(); lfs<std::uint64_t, 64, 55, 24, 5>(); lfs<std::uint32_t, 8, 7, 3, 2>(); lfs<std::uint64_t, 32, 31, 13, 12>(); lfs<std::uint16_t, 10, 9, 4, 3>(); lfs<std::uint64_t, 10, 7, 1, 6>(); }
template<class B, std::size_t k> void shuffled() { typedef sr::shuffle_order_engine<B, k> E; for (unsigned s = 0; s < 40; ++s) { typename B::result_type z = (typename B::result_type)s; B b(z); std::vector<ull> v; for (std::size_t i = 0; i < k; ++i) v.push_back(b()); ull y = b(); E e(z), c{B(z)}; B lv(z); E l(lv); ok("from a base engine", l == c && c == e); for (int i = 0; i < 40; ++i) { MC_STATE("shuffled " + str(k) + " mod " + str((ull)b.max()) + " from " + str(s) + " draw " + str(i)); ull mn = b.min(), range = (ull)b.max() - mn, j = (ull)((u128)k * (y - mn) / ((u128)range + 1)); y = v[j]; v[j] = b(); eq("shuffled draw", (ull)e(), y); eq("shuffled constant draw", draw_const(c), y); ok("shuffled ==", e == c); ok("shuffled base", e.base() == b); trace(); } } }
typedef sr::linear_congruential_engine<std::uint32_t, 5, 3, 16> L16; typedef sr::linear_congruential_engine<std::uint32_t, 7, 2, 13> L13; typedef sr::linear_congruential_engine<std::uint8_t, 61, 11, 128> L128; typedef sr::linear_congruential_engine<std::uint32_t, 69069u, 12345u, 4294967291u> Lbig; typedef sr::linear_congruential_engine<int, 16807, 0, 2147483647> Lint; typedef sr::linear_congruential_engine<std::uint32_t, 1664525u, 1013904223u, 0> Lword;
MC_SECTION(shuffled_small) { shuffled<L16, 1>(); shuffled<L16, 2>(); shuffled<L16, 5>(); shuffled<L13, 3>(); shuffled<L13, 8>(); shuffled<L128, 7>(); shuffled<Lbig, 4>(); shuffled<Lbig, 9>(); shuffled<Lint, 6>(); shuffled<Lword, 16>(); shuffled<sprout::ecuyer1988, 32>(); shuffled<sprout::mt19937, 3>(); shuffled<sprout::rand48, 100>(); shuffled<sprout::minstd_rand0, 255>(); shuffled<sprout::minstd_rand0, 300>(); }
template<int s1, int s2> void xored() { typedef sr::xor_combine_engine<L16, s1, L13, s2> E; for (unsigned a = 0; a < 16; ++a) for (unsigned b = 0; b < 13; ++b) { L16 x(a); L13 y(b); E e(x, y), f((std::uint32_t)a, (std::uint32_t)b); ok("combined of seeds", e == f); for (int i = 0; i < 10; ++i) { MC_STATE("combined " + str(s1) + " " + str(s2) + " from " + str(a) + ", " + str(b) + " draw " + str(i)); unsigned w = (x() << s1) ^ (y() << s2); eq("combined draw", (ull)e(), (ull)w); eq("combined constant draw", draw_const(f), (ull)w); ok("combined ==", e == f); ok("combined bases", e.base1() == x && e.base2() == y); E g, h(e); load(g, text(e)); ok("combined state read back", g == e); eq("combined next of the restored", (ull)draw_const(g), (ull)draw_const(h)); trace(); } } }
template<class X, class Y> void added() { typedef sr::additive_combine_engine<X, Y> E; for (unsigned a = 1; a < (unsigned)X::modulus; ++a) for (unsigned b = 1; b < (unsigned)Y::modulus; ++b) { X x(a); Y y(b); E e(x, y), f((typename X::result_type)a, (typename Y::result_type)b); ok("added of seeds", e == f); for (int i = 0; i < 12; ++i) { MC_STATE("added from " + str(a) + ", " + str(b) + " draw " + str(i)); long long z = (long long)x() - (long long)y(), m = X::modulus - 1; z = ((z - 1) % m + m) % m + 1; eq("added draw", (ull)e(), (ull)z); eq("added constant draw", draw_const(f), (ull)z); ok("added ==", e == f); ok("added range", (ull)z >= e.min() && (ull)z <= e.max()); trace(); } } }
MC_SECTION(combined_small) { xored<0, 0>(); xored<1, 0>(); xored<0, 3>(); xored<2, 5>(); added<sr::linear_congruential_engine<std::uint32_t, 7, 0, 31>, sr::linear_congruential_engine<std::uint32_t, 5, 0, 23>>(); added<sr::linear_congruential_engine<std::uint64_t, 7, 0, 17>, sr::linear_congruential_engine<std::uint64_t, 5, 0, 17>>(); added<sr::linear_congruential_engine<int, 7, 0, 17>, sr::linear_congruential_engine<int, 5, 0, 13>>(); }
#endif
#if PART == 0 || PART == 5
// seed sequences
template<std::size_t L, std::size_t N> void gen(sr::seed_array<N> const& s, std::seed_seq& q, std::string const& d) { MC_STATE("sequence " + d + " generating " + str(L)); std::vector<std::uint32_t> w(L), v(L, 7); q.generate(w.begin(), w.end()); s.generate(v.begin(), v.end()); ok("generated at run time", v == w); sprout::array<std::uint_least32_t, L> a{{}}; auto c = s.generate(a); ok("generated as a value", std::vector<std::uint32_t>(c.begin(), c.end()) == w); auto c2 = s.template generate<sprout::array<std::uint_least32_t, L>>(); ok("generated as a value by default", std::vector<std::uint32_t>(c2.begin(), c2.end()) == w); trace(); }
template<std::size_t N> void genlong(sr::seed_array<N> const& s, std::seed_seq& q, std::string const& d) { for (std::size_t L : {100, 622, 623, 624, 700}) { MC_STATE("sequence " + d + " generating " + str(L)); std::vector<std::uint32_t> w(L), v(L, 7); q.generate(w.begin(), w.end()); s.generate(v.begin(), v.end()); ok("generated at run time", v == w); trace(); } }
template<class E, class O> void seeded(char const* name, std::vector<std::uint32_t> const& v, sr::seed_array<3> s) { MC_STATE(std::string(name) + " from a sequence of " + str(v[0]) + " " + str(v[1]) + " " + str(v[2])); std::seed_seq q(v.begin(), v.end()); O o(q); sr::seed_array<3> const cs(s); E a(s), b(cs), c(q), d, e, f; d.seed(s); e.seed(cs); f.seed(q); ok("seeded forms agree", a == b && a == c && a == d && a == e && a == f); for (int i = 0; i < 6; ++i) eq("draw of seeded", (ull)a(), (ull)o()); trace(); }
template<class E, class O> void ranged(char const* name, std::vector<std::uint32_t> const& v) { MC_STATE(std::string(name) + " from a range of " + str(v[0]) + " " + str(v[1]) + " " + str(v[2])); auto it = v.begin(); O o(it, v.end()); E a(v.begin(), v.end()), b; b.seed(v.begin(), v.end()); ok("ranged forms agree", a == b); for (int i = 0; i < 6; ++i) eq("draw of ranged", (ull)a(), (ull)o()); bool thrown = false; try { E z(v.begin(), v.begin()); } catch (std::invalid_argument const&) { thrown = true; } ok("too few elements", thrown); trace(); }
template<std::size_t N> void arrays() { std::vector<std::vector<std::uint32_t>> vs; for (std::uint32_t p : {0u, 1u, 0x80000000u, 0xffffffffu, 12345u}) for (std::uint32_t st : {0u, 1u, 0x9e3779b9u}) { std::vector<std::uint32_t> v; for (std::size_t i = 0; i < N; ++i) v.push_back(p + (std::uint32_t)i * st); vs.push_back(v); } for (auto const& v : vs) { std::seed_seq q(v.begin(), v.end()); sr::seed_array<N> s(v.begin(), v.end()); std::string d = str(N) + " of " + (N ? str(v[0]) : std::string()); gen<1>(s, q, d); gen<2>(s, q, d); gen<3>(s, q, d); gen<4>(s, q, d); gen<5>(s, q, d); gen<6>(s, q, d); gen<7>(s, q, d); gen<8>(s, q, d); gen<9>(s, q, d); if (N == 3 || N == 10) { gen<38>(s, q, d); gen<39>(s, q, d); } genlong(s, q, d); MC_STATE("parameters of " + d); eq("size", s.size(), N); std::vector<std::uint32_t> p(N); s.param(p.begin()); ok("parameters", p == v); auto a = s.param(); ok("parameters as an array", std::vector<std::uint32_t>(a.begin(), a.end()) == v); trace(); } }
MC_SECTION(sequences) { arrays<1>(); arrays<2>(); arrays<3>(); arrays<4>(); arrays<7>(); arrays<10>(); }
template<class I, I a, I c, I m> void seeded_lcg(std::vector<std::uint32_t> const& v, sr::seed_array<3> const& s) { seeded<sr::linear_congruential_engine<I, a, c, m>, std::linear_congruential_engine<I, a, c, m>>("congruential", v, s); }
MC_SECTION(seeding) { std::uint32_t const x[] = {0u, 1u, 2u, 5u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 3141592653u}; for (std::uint32_t p : x) for (std::uint32_t q : x) for (std::uint32_t r : x) { std::vector<std::uint32_t> v = {p, q, r}; sr::seed_array<3> s(v.begin(), v.end()); ok("made", sr::make_seed_array(p, q, r).param() == s.param());
		seeded<sprout::minstd_rand0, std::minstd_rand0>("minstd_rand0", v, s); seeded<sprout::minstd_rand, std::minstd_rand>("minstd_rand", v, s); seeded<sprout::ecuyer1988, br::ecuyer1988>("ecuyer1988", v, s); seeded<sprout::hellekalek1995, br::hellekalek1995>("hellekalek1995", v, s); seeded<sprout::taus88, br::taus88>("taus88", v, s); if (r == 5u) seeded<sprout::kreutzer1986, br::kreutzer1986>("kreutzer1986", v, s);
		seeded_lcg<std::uint32_t, 1664525u, 1013904223u, 0>(v, s); seeded_lcg<std::uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0>(v, s); seeded_lcg<std::uint64_t, 25214903917ull, 11ull, 1ull << 48>(v, s); seeded_lcg<std::uint64_t, 69069ull, 5ull, 1ull << 32>(v, s); seeded_lcg<std::uint32_t, 5, 0, 7>(v, s); seeded_lcg<std::uint32_t, 69069u, 12345u, 4294967291u>(v, s);
		ranged<sprout::minstd_rand0, br::minstd_rand0>("minstd_rand0", v); ranged<sprout::hellekalek1995, br::hellekalek1995>("hellekalek1995", v); ranged<sr::linear_congruential_engine<std::uint64_t, 25214903917ull, 11ull, 1ull << 48>, br::linear_congruential_engine<std::uint64_t, 25214903917ull, 11ull, 1ull << 48>>("48 bits", v); ranged<sr::linear_feedback_shift_engine<std::uint32_t, 32, 31, 13, 12>, br::linear_feedback_shift_engine<std::uint32_t, 32, 31, 13, 12>>("shift register", v); } }
// iterating
template<class E, class O> void walk(char const* name) { for (unsigned s : {1u, 2u, 77u, 2147483646u}) for (int n = 0; n < 12; ++n) { MC_STATE(std::string(name) + " walked from " + str(s) + " for " + str(n)); E const e(s); O o(s); std::vector<ull> w, v; for (int i = 0; i < n; ++i) w.push_back(o()); for (auto it = sr::begin(e, n), last = sr::end(e); it != last; ++it) v.push_back(*it); ok("walked", v == w); v.clear(); auto rg = sr::make_range(e, n); for (auto i = rg.begin(); i != rg.end(); ++i) v.push_back(*i); ok("walked range", v == w); v.clear(); auto it = sr::begin(e); for (int i = 0; i < n; ++i) v.push_back(*it++); ok("walked without end", v == w); trace(); } for (unsigned s : {1u, 2u, 77u}) { MC_STATE(std::string(name) + " array from " + str(s)); E e(s); E const c(s); O o(s); auto a = sr::generate_array<5>(e); auto p = sr::generate_array<5>(c); for (int i = 0; i < 5; ++i) { ull w = o(); eq("array of draws", (ull)a[i], w); eq("array of constant draws", (ull)p.first[i], w); } ok("engine after an array", e == p.second); eq("next after an array", (ull)e(), (ull)o()); trace(); } }
MC_SECTION(walks) { walk<sprout::minstd_rand0, br::minstd_rand0>("minstd_rand0"); walk<sprout::rand48, br::rand48>("rand48"); walk<sprout::taus88, br::taus88>("taus88"); walk<sprout::ecuyer1988, br::ecuyer1988>("ecuyer1988"); walk<sprout::hellekalek1995, br::hellekalek1995>("hellekalek1995"); walk<sprout::kreutzer1986, br::kreutzer1986>("kreutzer1986"); }
// while compiling
template<class E> constexpr ull nth(E const& e, int n) { return n == 0 ? (ull)e().result() : nth(e().next(), n - 1); }
#define CT(E, O) { static constexpr ull v[] = {nth(E(), 0), nth(E(42u), 0), nth(E(42u), 1), nth(E(42u), 30)}; MC_STATE(std::string("constant ") + #E); O d; eq("constant default", v[0], (ull)d()); O o(42u); eq("constant first", v[1], (ull)o()); eq("constant second", v[2], (ull)o()); for (int i = 0; i < 28; ++i) o(); eq("constant thirty-first", v[3], (ull)o()); trace(); }
MC_SECTION(constant_expressions) { CT(sprout::minstd_rand0, br::minstd_rand0) CT(sprout::minstd_rand, br::minstd_rand) CT(sprout::rand48, br::rand48) CT(sprout::ecuyer1988, br::ecuyer1988) CT(sprout::hellekalek1995, br::hellekalek1995) CT(sprout::taus88, br::taus88) CT(sprout::kreutzer1986, br::kreutzer1986) CT(sprout::mt11213b, br::mt11213b) CT(sprout::mt19937_64, br::mt19937_64)
	static constexpr auto s = sr::make_seed_array(1u, 2u, 3u); static constexpr ull v = nth(sprout::minstd_rand0(s), 0); std::seed_seq q{1, 2, 3}; std::minstd_rand0 o(q); MC_STATE(std::string("constant seeded")); eq("constant seeded", v, (ull)o()); static constexpr sprout::minstd_rand0 e(5u); static constexpr sprout::minstd_rand0 f = e.discard(1000000); std::minstd_rand0 g(5u); g.discard(1000000); eq("constant discarded", nth(f, 0), (ull)g()); trace(); }
#endif
