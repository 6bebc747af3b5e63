// V11: equality, ordering and hashing are coherent
#include "mc.hpp"
#include <sprout/functional/hash.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/tuple/hash.hpp>
#include <sprout/optional.hpp>
#include <sprout/variant.hpp>
#include <sprout/utility/value_holder.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container.hpp>
#if PART == 2
#include <sprout/functional/hash/std/array.hpp>
#include <sprout/functional/hash/std/utility.hpp>
#include <sprout/functional/hash/std/complex.hpp>
#include <sprout/rational.hpp>
#include <sprout/rational/hash.hpp>
#include <sprout/complex.hpp>
#include <sprout/complex/hash.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/math/quaternion/hash.hpp>
#include <sprout/bitset.hpp>
#include <sprout/bitset/hash.hpp>
#include <sprout/valarray.hpp>
#include <sprout/logic/tribool.hpp>
#include <sprout/memory/exempt_ptr.hpp>
#include <sprout/cstdlib/div.hpp>
#include <sprout/cinttypes/div.hpp>
#include <sprout/utility/comparison.hpp>
#include <sprout/string/npos.hpp>
#endif
using namespace mc;
namespace so = sprout;
typedef std::vector<int> K;
template<class T, class Key = K> struct Vals { std::vector<std::pair<T, Key> > v; void add(T const& t, Key const& k) { v.push_back(std::make_pair(t, k)); } };
template<bool B> struct Flag {};
// order
template<class T, class U, class Key> void order(T const& a, Key const& x, U const& b, Key const& y, Flag<true>) { eq("<", static_cast<bool>(a < b), x < y); eq(">", static_cast<bool>(a > b), x > y); eq("<=", static_cast<bool>(a <= b), x <= y); eq(">=", static_cast<bool>(a >= b), x >= y); }
template<class T, class U, class Key> void order(T const&, Key const&, U const&, Key const&, Flag<false>) {}
template<class T, class U, class Key> void equality(T const& a, Key const& x, U const& b, Key const& y) { eq("==", static_cast<bool>(a == b), x == y); eq("!=", static_cast<bool>(a != b), x != y); }
template<class T> std::size_t hashes(T const& v, Flag<true>) { std::size_t h = so::to_hash(v); T m(v); eq("to_hash(lvalue)", so::to_hash(m), h); eq("to_hash(rvalue)", so::to_hash(static_cast<T&&>(m)), h); eq("sprout::hash<T>", so::hash<T>()(v), h); eq("sprout::hash<T const>", so::hash<T const>()(v), h); eq("sprout::hash<T volatile>", so::hash<T volatile>()(v), h); eq("sprout::hash<>", so::hash<>()(v), h); eq("sprout::hash<>(lvalue)", so::hash<>()(m), h); eq("hash_combine", so::hash_combine(5, v), so::hash_combine(5, m)); return h; }
template<class T> std::size_t hashes(T const&, Flag<false>) { return 0; }
template<class T> void stdhash(T const& v, std::size_t h, Flag<true>) { eq("std::hash", std::hash<T>()(v), h); }
template<class T> void stdhash(T const&, std::size_t, Flag<false>) {}
template<class T> void distinct(std::vector<std::size_t> const& h, std::vector<T> const& keys) { std::set<std::size_t> s(h.begin(), h.end()); std::set<T> k(keys.begin(), keys.end()); ok("hash distinguishes some values", k.size() < 3 || s.size() >= 2); }
template<bool Ord, bool Hash, bool Std, class T, class Key> void family(std::string const& name, Vals<T, Key> const& V) {
	std::vector<std::size_t> h; std::vector<Key> ks; for (auto const& p : V.v) { MC_STATE(name + " " + str(p.second)); h.push_back(hashes(p.first, Flag<Hash>())); stdhash(p.first, h.back(), Flag<Std>()); ks.push_back(p.second); trace(); }
	for (std::size_t i = 0; i < V.v.size(); ++i) for (std::size_t j = 0; j < V.v.size(); ++j) { auto const& p = V.v[i]; auto const& q = V.v[j]; MC_STATE(name + " " + str(p.second) + " and " + str(q.second)); equality(p.first, p.second, q.first, q.second); order(p.first, p.second, q.first, q.second, Flag<Ord>()); if (Hash && p.second == q.second) eq("equal values hash alike", h[i], h[j]); }
	if (Hash) distinct(h, ks);
}
// compare two families with each other
template<bool Ord, bool Hash, class T, class U, class Key> void cross(std::string const& name, Vals<T, Key> const& V, Vals<U, Key> const& W) {
	for (auto const& p : V.v) for (auto const& q : W.v) { MC_STATE(name + " " + str(p.second) + " and " + str(q.second)); equality(p.first, p.second, q.first, q.second); order(p.first, p.second, q.first, q.second, Flag<Ord>()); equality(q.first, q.second, p.first, p.second); order(q.first, q.second, p.first, p.second, Flag<Ord>()); if (Hash && p.second == q.second) eq("equal values of two types hash alike", so::to_hash(p.first), so::to_hash(q.first)); }
}
template<class T, class U, class Key> void hashonly(std::string const& name, Vals<T, Key> const& V, Vals<U, Key> const& W) { for (auto const& p : V.v) for (auto const& q : W.v) if (p.second == q.second) { MC_STATE(name + " " + str(p.second)); eq("same content hashes alike", so::to_hash(p.first), so::to_hash(q.first)); } }
// reference for hash_range / hash_values
inline std::size_t comb(std::size_t s, std::size_t h) { return s ^ (h + 0x9e3779b9 + (s << 6) + (s >> 2)); }
template<class C> std::size_t fold(C const& c, std::size_t s = 0) { for (auto const& e : c) s = comb(s, so::to_hash(e)); return s; }
#if PART == 1
template<class T> void integral(const char* n) { Vals<T, long double> V; for (long long k : {0ll, 1ll, -1ll, 2ll, 127ll, 128ll, 255ll, 256ll, 32767ll, 65535ll, 2147483647ll, 4294967295ll}) { T t = (T)k; V.add(t, (long double)t); } V.add(std::numeric_limits<T>::min(), (long double)std::numeric_limits<T>::min()); V.add(std::numeric_limits<T>::max(), (long double)std::numeric_limits<T>::max()); family<true, true, false>(n, V); }
enum E1 { e0, e1, e2 }; enum class E2 : unsigned char { a, b, c = 255 };
template<class T> void floating(const char* n) { Vals<T, long double> V; for (long double k : {0.0l, -0.0l, 1.0l, -1.0l, 0.5l, 1.5l, 2.0l, 3.0l, 1024.0l, 1e10l, 1e-10l, 65536.0l, 4294967296.0l}) { T t = (T)k; V.add(t, (long double)t); } typedef std::numeric_limits<T> L; for (T t : {L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon(), (T)(1 + L::epsilon())}) V.add(t, (long double)t); family<true, true, false>(n, V); }
MC_SECTION(numbers) {
	integral<signed char>("signed char"); integral<unsigned char>("unsigned char"); integral<char>("char"); integral<short>("short"); integral<unsigned short>("unsigned short"); integral<int>("int"); integral<unsigned>("unsigned"); integral<long>("long"); integral<unsigned long>("unsigned long"); integral<long long>("long long"); integral<unsigned long long>("unsigned long long"); integral<wchar_t>("wchar_t"); integral<char16_t>("char16_t"); integral<char32_t>("char32_t");
	{ Vals<bool, int> V; V.add(false, 0); V.add(true, 1); family<true, true, false>("bool", V); }
	{ Vals<E1, int> V; V.add(e0, 0); V.add(e1, 1); V.add(e2, 2); family<true, true, false>("enum", V); Vals<E2, int> W; W.add(E2::a, 0); W.add(E2::b, 1); W.add(E2::c, 255); family<true, true, false>("enum class", W); }
	floating<float>("float"); floating<double>("double"); floating<long double>("long double");
	{ static int a[5]; Vals<int*, int> V; V.add(nullptr, -1); for (int i = 0; i < 5; ++i) V.add(a + i, i); std::vector<std::size_t> h; for (auto& p : V.v) for (auto& q : V.v) { MC_STATE("pointer " + str(p.second) + " and " + str(q.second)); if (p.second == q.second) eq("pointer hash", so::to_hash(p.first), so::to_hash(q.first)); int const* c = q.first; if (p.second == q.second) { eq("pointer to const hash", so::to_hash(c), so::to_hash(p.first)); eq("hash<T*>", so::hash<int*>()(p.first), so::to_hash(c)); eq("hash<>", so::hash<>()(p.first), so::to_hash(c)); } } }
}
MC_SECTION(arrays) {
	sequences_upto(3, 3, [](std::vector<int> const& v) { MC_STATE("hash of the sequence " + str(v)); std::size_t w = fold(v); eq("hash_range(range)", so::hash_range(v), w); eq("hash_range(iterators)", so::hash_range(v.begin(), v.end()), w); eq("hash_range(seed, range)", so::hash_range((std::size_t)77, v), fold(v, 77)); eq("hash_range(seed, iterators)", so::hash_range((std::size_t)77, v.begin(), v.end()), fold(v, 77));
		if (v.size() == 3) { eq("hash_values", so::hash_values(v[0], v[1], v[2]), w); eq("hash_combine", so::hash_combine(77, v[0], v[1], v[2]), fold(v, 77)); eq("hash_combine steps", so::hash_combine(so::hash_combine(so::hash_combine(0, v[0]), v[1]), v[2]), w); int r[3] = {v[0], v[1], v[2]}; int const cr[3] = {v[0], v[1], v[2]}; eq("C array", so::to_hash(r), w); eq("const C array", so::to_hash(cr), w); so::array<int, 3> a = {{v[0], v[1], v[2]}}; eq("array hash", so::to_hash(a), w); }
		if (v.size() == 2) eq("hash_values", so::hash_values(v[0], v[1]), w); if (v.size() == 1) eq("hash_values", so::hash_values(v[0]), w); trace(); });
	Vals<so::array<int, 3> > V; sequences(3, 3, [&](std::vector<int> const& v) { so::array<int, 3> a = {{v[0], v[1] - 1, v[2]}}; V.add(a, K{v[0], v[1] - 1, v[2]}); }); family<true, true, true>("array<int,3>", V);
	Vals<so::array<so::array<signed char, 2>, 2> > N; sequences(4, 3, [&](std::vector<int> const& v) { so::array<so::array<signed char, 2>, 2> a = {{{{(signed char)(v[0] - 1), (signed char)v[1]}}, {{(signed char)v[2], (signed char)v[3]}}}}; N.add(a, K{v[0] - 1, v[1], v[2], v[3]}); }); family<true, true, true>("array<array>", N);
	Vals<so::array<float, 2> , std::vector<float> > F; for (float x : {0.f, -0.f, 1.f, -1.5f}) for (float y : {0.f, -0.f, 2.f}) { so::array<float, 2> a = {{x, y}}; F.add(a, std::vector<float>{x, y}); } family<true, true, true>("array<float,2>", F);
	Vals<so::array<int, 0> > Z; Z.add(so::array<int, 0>(), K()); family<true, false, false>("array<int,0>", Z);
}
template<std::size_t N> void fill(Vals<so::basic_string<char, N> >& V, int max) { sequences_upto(max, 3, [&](std::vector<int> const& v) { so::basic_string<char, N> s; K k; for (int x : v) { char c = "a\xff""b"[x]; s.push_back(c); k.push_back((unsigned char)c); } V.add(s, k); if (v.size() < N) { so::basic_string<char, N> d(s); d.push_back('z'); d.resize(v.size()); V.add(d, k); } }); }
MC_SECTION(strings) {
	Vals<so::basic_string<char, 3> > V; fill(V, 3); family<true, true, true>("string<3>", V); Vals<so::basic_string<char, 8> > W; fill(W, thorough() ? 4 : 3); family<true, true, true>("string<8>", W); cross<true, true>("string<3> with string<8>", V, W);
	Vals<so::string_view> S; static std::deque<std::string> store; for (auto const& p : V.v) { std::string s; for (int c : p.second) s.push_back((char)c); store.push_back(s); S.add(so::string_view(store.back().data(), store.back().size()), p.second); store.push_back("q" + s + "r"); S.add(so::string_view(store.back().data() + 1, s.size()), p.second); } family<true, true, true>("string_view", S); hashonly("string with string_view", V, S); hashonly("string<8> with string_view", W, S);
	Vals<char const*> C; for (auto const& p : V.v) { std::string s; for (int c : p.second) s.push_back((char)c); store.push_back(s); C.add(store.back().c_str(), p.second); } cross<true, false>("string with text", V, C); cross<true, false>("string_view with text", S, C);
	Vals<so::basic_string<char16_t, 4> > U; sequences_upto(3, 3, [&](std::vector<int> const& v) { so::basic_string<char16_t, 4> s; K k; for (int x : v) { char16_t c = (char16_t)(x == 0 ? 0 : x == 1 ? 0x7fff : 0xffff); s.push_back(c); k.push_back(c); } U.add(s, k); }); family<true, true, true>("u16string", U);
	Vals<so::basic_string<wchar_t, 4> > Wc; sequences_upto(3, 3, [&](std::vector<int> const& v) { so::basic_string<wchar_t, 4> s; K k; for (int x : v) { wchar_t c = (wchar_t)(x == 0 ? 1 : x == 1 ? 0x100 : 0xffff); s.push_back(c); k.push_back(c); } Wc.add(s, k); }); family<true, true, true>("wstring", Wc);
}
MC_SECTION(products) {
	typedef so::tuples::tuple<int, char, bool> T3; typedef so::tuples::tuple<> T0; typedef so::tuples::tuple<int> T1; Vals<T3> V; Vals<T1> O; Vals<T0> Z; Vals<so::pair<int, char> > P; Vals<so::pair<so::pair<int, int>, so::array<int, 1> > > Q; Vals<so::tuples::tuple<long, short, bool> > V2;
	for (int a : {-1, 0, 3}) for (char b : {'a', 'b', '\0'}) for (bool c : {false, true}) { V.add(T3(a, b, c), K{a, b, c}); V2.add(so::tuples::tuple<long, short, bool>(a, b, c), K{a, b, c}); P.add(so::pair<int, char>(a, b), K{a, b}); so::array<int, 1> e = {{b}}; Q.add(so::pair<so::pair<int, int>, so::array<int, 1> >(so::pair<int, int>(a, c), e), K{a, c, b}); O.add(T1(a), K{a}); }
	Z.add(T0(), K()); family<true, true, true>("tuple<int,char,bool>", V); family<true, true, true>("tuple<int>", O); family<true, true, true>("pair", P); family<true, true, true>("nested pair", Q); cross<true, true>("tuple with tuple of wider types", V, V2); family<true, false, false>("tuple<>", Z);
	Vals<so::tuples::tuple<int, so::tuples::tuple<int, int> > > N; sequences(3, 3, [&](std::vector<int> const& v) { N.add(so::tuples::tuple<int, so::tuples::tuple<int, int> >(v[0], so::tuples::tuple<int, int>(v[1], v[2])), v); }); family<true, true, true>("nested tuple", N);
	for (auto const& p : V.v) { MC_STATE("tuple hash " + str(p.second)); eq("tuple hash", so::to_hash(p.first), so::hash_values(p.second[0], (char)p.second[1], (bool)p.second[2])); } for (auto const& p : P.v) { MC_STATE("pair hash " + str(p.second)); eq("pair hash", so::to_hash(p.first), so::hash_values(p.second[0], (char)p.second[1])); }
}
MC_SECTION(sums) {
	Vals<so::optional<int> > V; V.add(so::nullopt, K()); V.add(so::optional<int>(), K()); Vals<so::optional<int> > G; for (int i : {-2, 0, 1, 7}) { V.add(so::optional<int>(i), K{i}); V.add(so::optional<int>(so::optional<int>(i)), K{i}); G.add(so::optional<int>(i), K{i}); } family<true, true, true>("optional<int>", V); 
	 { for (auto const& p : V.v) { MC_STATE("optional and nullopt " + str(p.second)); equality(p.first, p.second, so::nullopt, K()); order(p.first, p.second, so::nullopt, K(), Flag<true>()); equality(so::nullopt, K(), p.first, p.second); order(so::nullopt, K(), p.first, p.second, Flag<true>()); } }
	Vals<so::optional<so::pair<int, bool> > > P; P.add(so::nullopt, K()); for (int a : {0, 1}) for (bool b : {false, true}) P.add(so::optional<so::pair<int, bool> >(so::pair<int, bool>(a, b)), K{a, b}); family<true, true, true>("optional<pair>", P);
	typedef so::variant<int, char, so::pair<int, int> > W; Vals<W> X; for (int i : {-2, 0, 1, 97}) X.add(W(i), K{0, i}); for (char c : {'a', '\0', '\1'}) X.add(W(c), K{1, c}); for (int i : {0, 1}) for (int j : {0, 97}) X.add(W(so::pair<int, int>(i, j)), K{2, i, j}); { W a(W('a')), b(3); a = b; X.add(a, K{0, 3}); b = W('q'); X.add(b, K{1, 'q'}); } family<true, true, true>("variant", X);
}
MC_SECTION(holders) {
	static int const pool[] = {3, -1, 3, 0}; Vals<so::value_holder<int>, int> V; Vals<so::value_holder<int const&>, int> R; Vals<so::value_holder<int const*>, std::pair<int, int> > dummy; for (int const& x : pool) { V.add(so::value_holder<int>(x), x); R.add(so::value_holder<int const&>(x), x); } family<true, true, true>("value_holder<T>", V); family<true, true, true>("value_holder<T&>", R);
	Vals<so::pit<so::array<int, 3> > > P; for (int i : {-1, 0, 1, 2}) P.add(so::pit<so::array<int, 3> >(i), K{i}); family<true, true, true>("pit", P); Vals<so::sized_pit<so::array<int, 3> > > S; for (int i : {-1, 0, 1, 2}) S.add(so::sized_pit<so::array<int, 3> >(2, i), K{i}); family<true, true, true>("sized_pit", S);
	typedef so::sub_array<so::array<int, 4> > SA; Vals<SA> A; sequences(4, 2, [&](std::vector<int> const& v) { so::array<int, 4> b = {{v[0], v[1], v[2], v[3]}}; for (int f = 0; f <= 4; ++f) for (int l = f; l <= 4; ++l) A.add(SA(b, f, l), K(v.begin() + f, v.begin() + l)); }); family<true, true, true>("sub_array", A);
}
#elif PART == 2
#if __cplusplus >= 201402L
#define R14 1
#endif
MC_SECTION(numeric) {
	Vals<so::rational<int>, long> V; for (int n = -6; n <= 6; ++n) for (int d = -6; d <= 6; ++d) if (d) V.add(so::rational<int>(n, d), 0); for (auto& p : V.v) p.second = p.first.numerator() * (60L / p.first.denominator()); family<true, true, true>("rational", V); { Vals<int, long> I; for (int i = -6; i <= 6; ++i) I.add(i, i * 60L); cross<true, false>("rational with integer", V, I); } { std::size_t n = 0; for (int a = -6; a <= 6; ++a) for (int d = -6; d <= 6; ++d) if (d) { MC_STATE("rational " + str(a) + "/" + str(d)); eq("normalised key", V.v[n++].second * d, a * 60L); } }
	typedef std::vector<float> KF; Vals<so::complex<float>, KF> C; Vals<std::complex<float>, KF> SC; Vals<so::math::quaternion<float>, KF> Q; for (float a : {0.f, -0.f, 1.f, -2.f}) for (float b : {0.f, -0.f, 1.f, 3.f}) { C.add(so::complex<float>(a, b), KF{a, b}); SC.add(std::complex<float>(a, b), KF{a, b}); for (float c : {0.f, -0.f, 1.f}) for (float d : {-0.f, 2.f}) Q.add(so::math::quaternion<float>(a, b, c, d), KF{a, b, c, d}); }
	family<false, true, true>("complex", C); family<false, true, false>("std::complex", SC); family<false, true, true>("quaternion", Q); for (auto const& p : C.v) { MC_STATE("complex hash " + str(p.second)); eq("complex hash", so::to_hash(p.first), so::hash_values(p.second[0], p.second[1])); eq("std::complex hash", so::to_hash(std::complex<float>(p.second[0], p.second[1])), so::hash_values(p.second[0], p.second[1])); }
	Vals<float, KF> F; for (float a : {0.f, -0.f, 1.f, -2.f}) F.add(a, KF{a, 0.f}); cross<false, false>("complex with real", C, F);
}
template<std::size_t N> void bits(std::string const& name) { Vals<so::bitset<N> > V; std::size_t lim = N < 7 ? (std::size_t)1 << N : 64; for (std::size_t m = 0; m < lim; ++m) { so::bitset<N> b; K k; for (std::size_t i = 0; i < N; ++i) { bool on = (m >> (i % 6)) & (i < 6 || i >= N - 6 ? 1 : 0) & 1; if (N < 7) on = (m >> i) & 1; b.set(i, on); k.push_back(on); } V.add(b, k); so::bitset<N> c(b); c = ~~c; V.add(c, k); c = ~(~b); V.add(c, k); if (N < 7) { so::bitset<N> d = (b << 1) >> 1; K kd = k; kd.back() = 0; V.add(d, kd); } } family<false, true, true>(name, V); }
MC_SECTION(bitsets) { bits<1>("bitset<1>"); bits<5>("bitset<5>"); bits<6>("bitset<6>"); bits<32>("bitset<32>"); bits<63>("bitset<63>"); bits<64>("bitset<64>"); bits<65>("bitset<65>"); bits<129>("bitset<129>"); { MC_STATE("bitset<0>"); eq("bitset<0> hash", so::to_hash(so::bitset<0>()), so::to_hash(so::bitset<0>())); } }
template<class P> void two(std::string const& n, Vals<P> const& V) { family<true, true, false>(n, V); }
MC_SECTION(standard) {
	Vals<std::array<int, 2> > A; Vals<std::pair<int, int> > P; sequences(2, 3, [&](std::vector<int> const& v) { std::array<int, 2> a = {{v[0], v[1]}}; A.add(a, v); P.add(std::make_pair(v[0], v[1]), v); }); two("std::array", A); two("std::pair", P); for (auto const& p : A.v) { MC_STATE("std hash " + str(p.second)); eq("std::array hash", so::to_hash(p.first), fold(p.second)); } for (auto const& p : P.v) { MC_STATE("std pair hash " + str(p.second)); eq("std::pair hash", so::to_hash(p.first), fold(p.second)); }
	Vals<std::string> S; for (const char* s : {"", "a", "ab", "b"}) { K k; for (const char* c = s; *c; ++c) k.push_back(*c); S.add(s, k); } two("std::string", S);
}
MC_SECTION(others) {
	{ Vals<so::logic::tribool, int> T; T.add(so::logic::tribool(false), 0); T.add(so::logic::tribool(true), 1); T.add(so::logic::tribool(so::logic::indeterminate), 2); for (auto& p : T.v) for (auto& q : T.v) { MC_STATE("tribool " + str(p.second) + " and " + str(q.second)); std::size_t h = so::to_hash(p.first); eq("std::hash<tribool>", std::hash<so::logic::tribool>()(p.first), h); if (p.second == q.second) eq("tribool hash", so::to_hash(q.first), h); else ok("tribool hashes differ", so::to_hash(q.first) != h); } MC_STATE("indeterminate keyword"); eq("keyword hash", so::to_hash(so::logic::indeterminate), so::to_hash(T.v[2].first)); }
	{ static int a[4]; Vals<so::exempt_ptr<int>, int> V; V.add(so::exempt_ptr<int>(), -1); V.add(so::exempt_ptr<int>(nullptr), -1); for (int i = 0; i < 4; ++i) { V.add(so::exempt_ptr<int>(a + i), i); V.add(so::make_exempt(a + i), i); } for (auto& p : V.v) for (auto& q : V.v) { MC_STATE("exempt_ptr " + str(p.second) + " and " + str(q.second)); equality(p.first, p.second, q.first, q.second); if (p.second >= 0 && q.second >= 0) order(p.first, p.second, q.first, q.second, Flag<true>()); if (p.second == q.second) eq("exempt_ptr hash", so::to_hash(p.first), so::to_hash(q.first)); eq("== nullptr", p.first == nullptr, p.second < 0); eq("nullptr ==", nullptr == p.first, p.second < 0); eq("!= nullptr", p.first != nullptr, p.second >= 0); eq("std::hash", std::hash<so::exempt_ptr<int> >()(p.first), so::to_hash(p.first));
			so::exempt_ptr<int> x = p.first, y = q.first; x.swap(y); ok("exempt_ptr swap", x == q.first && y == p.first); swap(x, y); ok("exempt_ptr swap function", x == p.first && y == q.first); eq("get", p.first.get() == (p.second < 0 ? (int*)0 : a + p.second), true); eq("bool", (bool)p.first, p.second >= 0); int* raw = p.first.release() ; eq("release", raw == (p.second < 0 ? (int*)0 : a + p.second), true); p.first.reset(raw); } }
	{ std::map<K, std::vector<std::size_t> > h; for (int q : {0, 1, -3}) for (int r : {0, 2, -1}) { MC_STATE("division result " + str(q) + " " + str(r)); so::div_t d = {q, r}; so::ldiv_t l = {q, r}; so::lldiv_t ll = {q, r}; so::imaxdiv_t m = {q, r}; eq("hash of div_t", so::to_hash(d), so::hash_values(q, r)); eq("hash of ldiv_t", so::to_hash(l), so::hash_values((long)q, (long)r)); eq("hash of lldiv_t", so::hash<so::lldiv_t>()(ll), so::hash_values(q, r)); eq("hash of imaxdiv_t", so::hash<>()(m), so::hash_values(q, r)); } }
	{ Vals<so::valarray<int, 3> > V; sequences(3, 3, [&](std::vector<int> const& v) { so::valarray<int, 3> a = {v[0], v[1], v[2]}; V.add(a, v); }); for (auto& p : V.v) { MC_STATE("valarray " + str(p.second)); eq("valarray hash", so::to_hash(p.first), fold(p.second)); eq("std::hash<valarray>", std::hash<so::valarray<int, 3> >()(p.first), fold(p.second)); eq("sprout::hash<valarray>", so::hash<so::valarray<int, 3> >()(p.first), fold(p.second)); } }
	for (unsigned long u : {0ul, 1ul, ~0ul, ~0ul - 1, 0xfffffffful, 0x7ffffffffffffffful}) { MC_STATE("npos and " + str(u)); unsigned long n = ~0ul; so::npos_t np = so::npos; equality(u, u, np, n); order(u, u, np, n, Flag<true>()); equality(np, n, u, u); order(np, n, u, u, Flag<true>()); equality(np, n, np, n); order(np, n, np, n, Flag<true>()); unsigned v = (unsigned)u, m = ~0u; equality(v, v, np, m); order(v, v, np, m, Flag<true>()); equality(np, m, v, v); order(np, m, v, v, Flag<true>()); }
}
struct Mod { int m; constexpr bool operator()(int a, int b) const { return a % m < b % m; } };
MC_SECTION(chains) {
	// every chain of up to five operands and every choice of < and <= (> and >=, ==) between neighbours
	int const N = thorough() ? 4 : 3; Mod const md = {3}; using so::comp;
	for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) for (int c = 0; c < N; ++c) for (int d = 0; d < N; ++d) { MC_STATE("chain of " + str(a) + " " + str(b) + " " + str(c) + " " + str(d)); trace();
		eq("comp < a", (bool)(comp < a), true); eq("comp < a < b", (bool)(comp < a < b), a < b); eq("comp < a <= b", (bool)(comp < a <= b), a <= b); eq("!(comp < a < b)", !(comp < a < b), !(a < b));
		#define C3(x, y) eq("comp %" #x #y, (bool)(comp % a x b y c), (a x b) && (b y c)); eq("comp " #x #y, (bool)(comp x a x b y c), (a x b) && (b y c)); eq("comp->*c %" #x #y, (bool)((comp->*md) % a x b y c), (a % 3 x b % 3) && (b % 3 y c % 3)); eq("comp->*c " #x #y, (bool)((comp->*md) x a x b y c), (a % 3 x b % 3) && (b % 3 y c % 3));
		#define C4(x, y, z) eq("comp %" #x #y #z, (bool)(comp % a x b y c z d), (a x b) && (b y c) && (c z d)); eq("comp " #x #y #z, (bool)(comp x a x b y c z d), (a x b) && (b y c) && (c z d)); eq("comp->*c %" #x #y #z, (bool)((comp->*md) % a x b y c z d), (a % 3 x b % 3) && (b % 3 y c % 3) && (c % 3 z d % 3)); eq("comp->*c " #x #y #z, (bool)((comp->*md) x a x b y c z d), (a % 3 x b % 3) && (b % 3 y c % 3) && (c % 3 z d % 3));
		C3(<, <) C3(<, <=) C3(<=, <) C3(<=, <=) C3(>, >) C3(>, >=) C3(>=, >) C3(>=, >=) C3(==, ==)
		C4(<, <, <) C4(<, <, <=) C4(<, <=, <) C4(<, <=, <=) C4(<=, <, <) C4(<=, <, <=) C4(<=, <=, <) C4(<=, <=, <=) C4(>, >, >) C4(>, >, >=) C4(>, >=, >) C4(>, >=, >=) C4(>=, >, >) C4(>=, >, >=) C4(>=, >=, >) C4(>=, >=, >=) C4(==, ==, ==)
	}
}
#endif
