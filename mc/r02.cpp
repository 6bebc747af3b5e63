// R02: distributions driven by every answer of a scripted random source, against exact proportions and Boost's distribution of the same name.
#include "mc.hpp"
#include <sprout/random.hpp>
#include <sprout/random/generate_array.hpp>
#include <sprout/random/generate_canonical.hpp>
#include <sprout/random/uniform_smallint.hpp>
#include <sprout/random/binomial_distribution.hpp>
#include <sprout/random/poisson_distribution.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/generate_canonical.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/uniform_01.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <cmath>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <sstream>
#include <vector>
#ifndef PART
#define PART 0
#endif
using namespace mc;
namespace sr = sprout::random;
namespace br = boost::random;
typedef unsigned long long ull;
struct Exhausted {};
// a source whose successive answers are the tape's
template<class R, R LO, R HI> struct Tape {
	typedef R result_type; R const* p; int n, i;
	Tape() : p(0), n(0), i(0) {} explicit Tape(std::vector<R> const& v) : p(v.data()), n((int)v.size()), i(0) {}
	static SPROUT_CONSTEXPR R min() { return LO; } static SPROUT_CONSTEXPR R max() { return HI; }
	R operator()() { if (i >= n) throw Exhausted(); return p[i++]; }
	sr::random_result<Tape> operator()() const { if (i >= n) throw Exhausted(); Tape t(*this); R r = t.p[t.i++]; return sr::random_result<Tape>(r, t); }
	friend bool operator==(Tape const& a, Tape const& b) { return a.p == b.p && a.i == b.i; } friend bool operator!=(Tape const& a, Tape const& b) { return !(a == b); }
};
struct Reals {
	typedef double result_type; double const* p; int n, i;
	Reals() : p(0), n(0), i(0) {} explicit Reals(std::vector<double> const& v) : p(v.data()), n((int)v.size()), i(0) {}
	static SPROUT_CONSTEXPR double min() { return 0; } static SPROUT_CONSTEXPR double max() { return 1; }
	double operator()() { if (i >= n) throw Exhausted(); return p[i++]; }
	sr::random_result<Reals> operator()() const { if (i >= n) throw Exhausted(); Reals t(*this); double r = t.p[t.i++]; return sr::random_result<Reals>(r, t); }
};
template<class T> struct Out { bool done; T v; int used; };
template<class T, class E, class F> Out<T> attempt(std::vector<typename E::result_type> const& tape, F f) { E e(tape); try { T v = f(e); Out<T> o = {true, v, e.i}; return o; } catch (Exhausted const&) { Out<T> o = {false, T(), (int)tape.size()}; return o; } }
template<class T> std::string show(Out<T> const& o) { std::ostringstream os; if (!o.done) os << "more answers wanted"; else os << std::setprecision(20) << +o.v << " after " << o.used << " answers"; return os.str(); }
template<class T> bool agree(Out<T> const& a, Out<T> const& b, double tol) { if (a.done != b.done) return false; if (!a.done) return true; if (a.used != b.used) return false; if (tol == 0) return a.v == b.v; double x = (double)a.v, y = (double)b.v; return x == y || std::fabs(x - y) <= tol * (1 + std::fabs(y)); }
template<class R> std::string tell(std::vector<R> const& t) { std::ostringstream os; os << std::setprecision(17); for (std::size_t i = 0; i < t.size(); ++i) os << (i ? " " : "") << +t[i]; return os.str(); }
// the choice tree of a distribution: every prefix of answers, mutable and constant source and the oracle side by side
template<class T, class E, class D, class B> struct Tree {
	typedef typename E::result_type R; std::string what; D d; B oracle; std::vector<R> digits; int depth; double tol; bool check; T lo, hi; std::map<T, double> weight; double open; std::vector<R> tape;
	void go() {
		Out<T> m = attempt<T, E>(tape, [&](E& e) -> T { D x(d); return x(e); });
		Out<T> c = attempt<T, E>(tape, [&](E& e) -> T { E const& k = e; D const x(d); auto r = x(k); T v = r.result(); E const n = r.next().engine(); e = n; return v; });
		Out<T> b = attempt<T, E>(tape, oracle);
		MC_STATE(what + ", answers " + tell(tape));
		okd("value and answers used", agree(m, b, tol), [&] { return show(m) + ", expected " + show(b); });
		okd("constant source", agree(c, m, 0), [&] { return show(c) + ", with the mutable source " + show(m); });
		if (m.done) { okd("in range", check ? !(m.v < lo) && !(hi < m.v) : true, [&] { return show(m); }); hit("value", hval((double)m.v)); }
		trace(); double w = std::pow((double)digits.size(), -(double)tape.size());
		if (m.done) { if (m.used == (int)tape.size()) weight[m.v] += w; return; }
		if ((int)tape.size() >= depth) { open += w; return; }
		for (R x : digits) { tape.push_back(x); go(); tape.pop_back(); }
	}
};
template<class T, class E, class D, class B> Tree<T, E, D, B> tree(std::string const& what, D const& d, B oracle, std::vector<typename E::result_type> const& digits, int depth, T lo, T hi, double tol = 0, bool check = true) { Tree<T, E, D, B> t = {what, d, oracle, digits, depth, tol, check, lo, hi, {}, 0, {}}; t.go(); return t; }
template<class E> std::vector<typename E::result_type> all() { std::vector<typename E::result_type> v; for (long long x = (long long)E::min(); x <= (long long)E::max(); ++x) v.push_back((typename E::result_type)x); return v; }
template<class E> int fit(double budget) { double n = (double)E::max() - (double)E::min() + 1; int d = 1; while (std::pow(n, d + 1) <= budget) ++d; return d; }
#if PART == 0 || PART == 1 || PART == 5
// Boost adds the minimum wrongly in places: let it draw the offset
template<template<class> class D, class T, class E> std::function<T(E&)> boosted(T a, T b) { typedef typename std::make_unsigned<T>::type U; return [a, b](E& e) -> T { U o = D<U>(0, U(U(b) - U(a)))(e); return T(U(U(a) + o)); }; }
template<class T> double count(T a, T b) { return (double)((__int128)b - (__int128)a + 1); }
template<class T> std::string range(T a, T b) { return "[" + str((long long)a) + ", " + str((long long)b) + "]"; }
template<class T, class E> void uniform(char const* tname, char const* ename, T a, T b) {
	typedef sr::uniform_int_distribution<T> D; auto t = tree<T, E>(std::string("uniform_int_distribution<") + tname + ">" + range(a, b) + " on " + ename, D(a, b), boosted<br::uniform_int_distribution, T, E>(a, b), all<E>(), fit<E>(thorough() ? 60000 : 1100), a, b);
	MC_STATE(t.what + ": proportions"); double n = count(a, b), share = (1 - t.open) / n; double lo = 1, hi = 0; for (auto const& p : t.weight) { lo = std::min(lo, p.second); hi = std::max(hi, p.second); }
	if (n <= 4096 && t.open < 0.5) { okd("every value reached", t.weight.size() == n || 1 / n < t.open, [&] { return str(t.weight.size()) + " of " + str(n); }); okd("equally often", t.weight.empty() || hi - lo <= t.open + 1e-12, [&] { return "share " + str(lo) + " to " + str(hi) + ", expected " + str(share); }); }
}
template<class T, class E> void uniforms(char const* tname, char const* ename) {
	int const top = 12; int const low = std::is_signed<T>::value ? -4 : 0; for (int a = low; a <= 3; ++a) for (int b = a; b <= top; ++b) uniform<T, E>(tname, ename, (T)a, (T)b);
	T const mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
	for (int k = 0; k < 9; ++k) { uniform<T, E>(tname, ename, T(mx - k), mx); uniform<T, E>(tname, ename, mn, T(mn + k)); }
	for (int b : {15, 16, 24, 25, 26, 31, 35, 63, 64, 80, 124, 126}) { uniform<T, E>(tname, ename, 0, (T)b); uniform<T, E>(tname, ename, 1, (T)b); uniform<T, E>(tname, ename, (T)low, (T)b); uniform<T, E>(tname, ename, T(mn + 1), T(mn + b)); uniform<T, E>(tname, ename, T(mx - b), T(mx - 1)); }
	if (std::is_signed<T>::value) for (int k : {1, 2, 3}) uniform<T, E>(tname, ename, T(-k), T(mx - k));
	uniform<T, E>(tname, ename, mn, mx); uniform<T, E>(tname, ename, mn, T(mx - 1)); uniform<T, E>(tname, ename, T(mn + 1), mx); uniform<T, E>(tname, ename, 0, mx);
	for (T p = mx; p > 8; p /= 3) { uniform<T, E>(tname, ename, 0, p); uniform<T, E>(tname, ename, mn, T(mn + p)); uniform<T, E>(tname, ename, T(mx - p), mx); }
}
template<class T, class E> void small(char const* tname, char const* ename, T a, T b) {
	typedef sr::uniform_smallint<T> D; auto t = tree<T, E>(std::string("uniform_smallint<") + tname + ">" + range(a, b) + " on " + ename, D(a, b), boosted<br::uniform_smallint, T, E>(a, b), all<E>(), 1, a, b);
	MC_STATE(t.what + ": proportions"); double n = count(a, b), m = (double)E::max() - (double)E::min() + 1;
	if (n <= m && std::fmod(m, n) == 0) { ok("every value reached", t.weight.size() == n); for (auto const& p : t.weight) okd("equally often", std::fabs(p.second - 1 / n) < 1e-12, [&] { return str((long long)p.first) + " has share " + str(p.second); }); }
}
template<class T, class E> void smalls(char const* tname, char const* ename) {
	int const low = std::is_signed<T>::value ? -4 : 0; for (int a = low; a <= 3; ++a) for (int b = a; b <= 20; ++b) small<T, E>(tname, ename, (T)a, (T)b);
	T const mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
	for (int k : {0, 1, 2, 5, 6, 9, 30, 99, 126}) { small<T, E>(tname, ename, T(mx - k), mx); small<T, E>(tname, ename, mn, T(mn + k)); small<T, E>(tname, ename, 0, (T)k); } small<T, E>(tname, ename, mn, mx); small<T, E>(tname, ename, 0, mx); small<T, E>(tname, ename, mn, T(mx - 1));
}
// wide sources: answers around every bucket boundary
template<class T, class E> void wide(char const* tname, char const* ename, T a, T b) {
	typedef typename E::result_type R; typedef typename std::make_unsigned<T>::type U; std::vector<R> v; R const lo = E::min(), hi = E::max(); R const span = R(hi - lo);
	auto put = [&](R off) { for (int d = -1; d <= 1; ++d) { R x = R(off + d); if (x <= span) v.push_back(R(lo + x)); } };
	put(0); put(span); put(R(span / 2)); put(R(span / 3)); U const n = U(U(b) - U(a)); if (n && n < span) { R bucket = R((span - n) / (R(n) + 1) + 1); for (ull k : {1ull, 2ull, (ull)n / 2, (ull)n, (ull)n + 1}) put(R(bucket * R(k))); }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	tree<T, E>(std::string("uniform_int_distribution<") + tname + ">" + range(a, b) + " on " + ename, sr::uniform_int_distribution<T>(a, b), boosted<br::uniform_int_distribution, T, E>(a, b), v, 2 + (thorough() && v.size() < 40), a, b);
	tree<T, E>(std::string("uniform_smallint<") + tname + ">" + range(a, b) + " on " + ename, sr::uniform_smallint<T>(a, b), boosted<br::uniform_smallint, T, E>(a, b), v, 1, a, b);
}
template<class T, class E> void wides(char const* tname, char const* ename) {
	T const mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min(); std::vector<T> pts; for (int k = 0; k < 4; ++k) { pts.push_back(T(mn + k)); pts.push_back(T(mx - k)); pts.push_back(T(k)); pts.push_back(T(mx / 2 + k)); pts.push_back(T(mx / 3 + k)); if (std::is_signed<T>::value) pts.push_back(T(-k)); } for (int k : {5, 6, 9, 10, 99, 100}) pts.push_back((T)k);
	for (unsigned s = 8; s < 8 * sizeof(T) - 1; s += 8) { pts.push_back(T(T(1) << s)); pts.push_back(T((T(1) << s) - 1)); }
	std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
	for (std::size_t i = 0; i < pts.size(); i += 1) for (std::size_t j = i; j < pts.size(); j += thorough() ? 1 : 2) wide<T, E>(tname, ename, pts[i], pts[j]);
}
// a real source stands for the integers below 2^53
template<class T> void from_reals(char const* tname, T a, T b) {
	std::vector<double> v; double const n = count(a, b); for (int k = 0; k < 16; ++k) v.push_back(k / 16.0); for (int k = 1; k < 4; ++k) { double q = k / n; if (q < 1) { v.push_back(q); v.push_back(std::nextafter(q, 0)); } } v.push_back(std::nextafter(1.0, 0)); v.push_back(std::ldexp(1.0, -53)); v.push_back(std::ldexp(1.0, -20));
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	tree<T, Reals>(std::string("uniform_int_distribution<") + tname + ">" + range(a, b) + " on reals", sr::uniform_int_distribution<T>(a, b), boosted<br::uniform_int_distribution, T, Reals>(a, b), v, 2, a, b);
	tree<T, Reals>(std::string("uniform_smallint<") + tname + ">" + range(a, b) + " on reals", sr::uniform_smallint<T>(a, b), boosted<br::uniform_smallint, T, Reals>(a, b), v, 1, a, b);
}
typedef Tape<unsigned, 0, 1> Bits; typedef Tape<unsigned char, 0, 2> Trits; typedef Tape<unsigned, 1, 6> Die; typedef Tape<unsigned long long, 3, 7> Five; typedef Tape<int, -3, 3> Signed; typedef Tape<unsigned char, 0, 255> Byte; typedef Tape<signed char, -128, 127> SByte; typedef Tape<unsigned short, 0, 256> Odd;
typedef Tape<unsigned, 0, 0xffffffffu> W32; typedef Tape<ull, 0, 0xffffffffffffffffull> W64; typedef Tape<unsigned, 1, 2147483646u> Minstd; typedef Tape<unsigned short, 0, 65535> W16;
#if PART != 5
MC_SECTION(uniform_int_small_sources) {
	bound("sources", "0..1, 0..2, 1..6, 3..7, -3..3, every answer sequence up to 12 / 7 / 4 / 5 / 4 answers (thorough more)");
#define EACH(T) uniforms<T, Bits>(#T, "0..1"); uniforms<T, Trits>(#T, "0..2"); uniforms<T, Die>(#T, "1..6"); uniforms<T, Five>(#T, "3..7"); uniforms<T, Signed>(#T, "-3..3");
	EACH(signed char) EACH(unsigned char) EACH(int) EACH(unsigned) EACH(long long)
#undef EACH
}
MC_SECTION(uniform_int_bytes) { uniforms<int, Byte>("int", "0..255"); uniforms<unsigned char, Byte>("unsigned char", "0..255"); uniforms<short, SByte>("short", "-128..127"); uniforms<signed char, Odd>("signed char", "0..256"); }
MC_SECTION(uniform_smallint) {
#define EACH(T) smalls<T, Bits>(#T, "0..1"); smalls<T, Die>(#T, "1..6"); smalls<T, Signed>(#T, "-3..3"); smalls<T, Byte>(#T, "0..255"); smalls<T, SByte>(#T, "-128..127"); smalls<T, Odd>(#T, "0..256");
	EACH(signed char) EACH(int) EACH(unsigned) EACH(long long)
#undef EACH
}
#else
MC_SECTION(uniform_int_wide_sources) {
#define EACH(T) wides<T, W16>(#T, "16 bits"); wides<T, W32>(#T, "32 bits"); wides<T, W64>(#T, "64 bits"); wides<T, Minstd>(#T, "1..2^31-2");
	EACH(signed char) EACH(short) EACH(int) EACH(unsigned) EACH(long long) EACH(ull)
#undef EACH
}
MC_SECTION(uniform_int_from_reals) { for (int a = -3; a <= 2; ++a) for (int b = a; b <= 12; ++b) { from_reals<int>("int", a, b); from_reals<long long>("long long", a, b); from_reals<short>("short", (short)a, (short)b); } from_reals<int>("int", -2147483647 - 1, 2147483647); from_reals<unsigned>("unsigned", 0, 0xffffffffu); from_reals<long long>("long long", 0, 1ll << 40); from_reals<long long>("long long", 0, (1ll << 53) - 1); from_reals<int>("int", 0, 1000000); }
#endif
#endif
#if PART == 0 || PART == 2
typedef Tape<unsigned, 0, 255> Byte32; typedef Tape<unsigned, 1, 6> Die; typedef Tape<unsigned, 0, 4> Five; typedef Tape<unsigned, 0, 0xffffffffu> W32; typedef Tape<ull, 0, 0xffffffffffffffffull> W64;
template<class R, class E> std::vector<R> spread(int steps) { std::vector<R> v; R lo = E::min(), hi = E::max(); R span = R(hi - lo); for (int k = 0; k <= steps; ++k) { R o = (R)((unsigned __int128)span * k / steps); for (int d = -1; d <= 1; ++d) if (R(o + d) <= span) v.push_back(R(lo + o + d)); } std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
MC_SECTION(bernoulli) {
	auto run = [](double p) {
		auto t = tree<bool, Byte32>("bernoulli " + str(p) + " on 0..255", sr::bernoulli_distribution<double>(p), [&](Byte32& e) { return br::bernoulli_distribution<double>(p)(e); }, all<Byte32>(), 1, false, true);
		double k = p * 256; if (k == std::floor(k)) { MC_STATE(t.what + ": proportion"); eq("proportion of true", t.weight[true], p); }
		auto u = tree<bool, Die>("bernoulli " + str(p) + " on 1..6", sr::bernoulli_distribution<double>(p), [&](Die& e) { return br::bernoulli_distribution<double>(p)(e); }, all<Die>(), 1, false, true); k = p * 6; if (k == std::floor(k)) { MC_STATE(u.what + ": proportion"); ok("proportion of true", std::fabs(u.weight[true] - p) < 1e-12); }
		tree<bool, W32>("bernoulli " + str(p) + " on 32 bits", sr::bernoulli_distribution<float>((float)p), [&](W32& e) { return br::bernoulli_distribution<float>((float)p)(e); }, spread<unsigned, W32>(300), 1, false, true);
		tree<bool, W64>("bernoulli " + str(p) + " on 64 bits", sr::bernoulli_distribution<double>(p), [&](W64& e) { return br::bernoulli_distribution<double>(p)(e); }, spread<ull, W64>(300), 1, false, true);
		tree<bool, Reals>("bernoulli " + str(p) + " on reals", sr::bernoulli_distribution<double>(p), [&](Reals& e) { return br::bernoulli_distribution<double>(p)(e); }, {0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, p < 1 ? p : 0, std::nextafter(1.0, 0)}, 1, false, true);
	};
	for (int k = 0; k <= 256; ++k) run(k / 256.0); for (int k = 0; k <= 6; ++k) run(k / 6.0); for (double p : {1e-300, 0.1, 0.3, 0.7, 0.9, 1 - std::ldexp(1.0, -53)}) run(p);
}
template<class RT> void real(char const* name, int steps) {
	tree<RT, Byte32>(std::string("uniform_01<") + name + "> on 0..255", sr::uniform_01<RT>(), [&](Byte32& e) { return br::uniform_01<RT>()(e); }, all<Byte32>(), 1, RT(0), std::nextafter(RT(1), RT(0)), 1e-15);
	tree<RT, Die>(std::string("uniform_01<") + name + "> on 1..6", sr::uniform_01<RT>(), [&](Die& e) { return br::uniform_01<RT>()(e); }, all<Die>(), 1, RT(0), std::nextafter(RT(1), RT(0)), 1e-7);
	tree<RT, W32>(std::string("uniform_01<") + name + "> on 32 bits", sr::uniform_01<RT>(), [&](W32& e) { return br::uniform_01<RT>()(e); }, spread<unsigned, W32>(steps), 2, RT(0), std::nextafter(RT(1), RT(0)), 1e-7);
	tree<RT, W64>(std::string("uniform_01<") + name + "> on 64 bits", sr::uniform_01<RT>(), [&](W64& e) { return br::uniform_01<RT>()(e); }, spread<ull, W64>(steps), 2, RT(0), std::nextafter(RT(1), RT(0)), 1e-7);
	tree<RT, Reals>(std::string("uniform_01<") + name + "> on reals", sr::uniform_01<RT>(), [&](Reals& e) { return br::uniform_01<RT>()(e); }, {0, 0.125, 0.25, 0.5, 0.75, std::nextafter(1.0, 0)}, 2, RT(0), std::nextafter(RT(1), RT(0)), 1e-15);
	RT const ends[] = {0, 1, 2, 10, -1, -3, RT(0.5), RT(1e30), RT(-1e30), RT(1e-30), std::nextafter(RT(1), RT(2)), std::nextafter(RT(1), RT(0)), std::numeric_limits<RT>::max(), 4};
	for (RT a : ends) for (RT b : ends) if (a < b && b - a <= std::numeric_limits<RT>::max()) { std::string w = std::string("uniform_real_distribution<") + name + ">[" + str((double)a) + ", " + str((double)b) + ") on "; RT top = std::nextafter(b, a); double tol = std::is_same<RT, float>::value ? 1e-7 : 1e-15;
		tree<RT, Byte32>(w + "0..255", sr::uniform_real_distribution<RT>(a, b), [&](Byte32& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, all<Byte32>(), 1, a, top, tol);
		tree<RT, Five>(w + "0..4", sr::uniform_real_distribution<RT>(a, b), [&](Five& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, all<Five>(), 3, a, top, tol);
		tree<RT, Die>(w + "1..6", sr::uniform_real_distribution<RT>(a, b), [&](Die& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, all<Die>(), 3, a, top, tol);
		tree<RT, W32>(w + "32 bits", sr::uniform_real_distribution<RT>(a, b), [&](W32& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, spread<unsigned, W32>(16), 2, a, top, tol);
		tree<RT, W64>(w + "64 bits", sr::uniform_real_distribution<RT>(a, b), [&](W64& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, spread<ull, W64>(16), 2, a, top, tol);
		tree<RT, Reals>(w + "reals", sr::uniform_real_distribution<RT>(a, b), [&](Reals& e) { return br::uniform_real_distribution<RT>(a, b)(e); }, {0, 0.125, 0.25, 0.5, 0.75, std::nextafter(1.0, 0)}, 2, a, top, tol); }
}
MC_SECTION(uniform_reals) { real<double>("double", 40); real<float>("float", 40); }
// generate_canonical: the digits of the source, least significant first
template<class RT, std::size_t Bits, class E> void canonical(char const* what, std::vector<typename E::result_type> const& digits, int depth) {
	RT const r = (RT)E::max() - (RT)E::min() + 1; RT const limit = std::pow(RT(2), RT(std::min(Bits, (std::size_t)std::numeric_limits<RT>::digits))); int need = 1; for (RT m = r; m < limit; m *= r) ++need;
	sequences(std::min(need, depth), (int)digits.size(), [&](std::vector<int> const& v) {
		std::vector<typename E::result_type> t; for (int i = 0; i < need; ++i) t.push_back(digits[v[i % v.size()]]); MC_STATE(std::string(what) + ", answers " + tell(t));
		RT s = 0, m = 1; for (int i = 0; i < need; ++i) { s += (RT)(t[i] - E::min()) * m; m *= r; } s /= m; if (s == 1) s -= std::numeric_limits<RT>::epsilon() / 2;
		E e(t), c(t); RT a = sr::generate_canonical<RT, Bits>(e); E const& k = c; auto b = sr::generate_canonical<RT, Bits>(k);
		okd("canonical value", std::fabs(a - s) <= 4 * std::numeric_limits<RT>::epsilon() * s, [&] { return str((double)a) + ", expected " + str((double)s); }); ok("canonical in range", a >= 0 && a < 1 && b.first >= 0 && b.first < 1); okd("canonical from a constant source", std::fabs(a - b.first) <= 4 * std::numeric_limits<RT>::epsilon() * s, [&] { return str((double)b.first) + ", expected " + str((double)a); }); eq("answers used", e.i, need); eq("answers used of a constant source", b.second.i, need); trace(); });
}
MC_SECTION(canonical) {
	canonical<double, 1, Five>("generate_canonical<double, 1> on 0..4", all<Five>(), 9); canonical<double, 5, Die>("generate_canonical<double, 5> on 1..6", all<Die>(), 9); canonical<double, 16, Die>("generate_canonical<double, 16> on 1..6", all<Die>(), 7); canonical<double, 8, Byte32>("generate_canonical<double, 8> on 0..255", all<Byte32>(), 1); canonical<double, 9, Byte32>("generate_canonical<double, 9> on 0..255", all<Byte32>(), 2); canonical<float, 24, Byte32>("generate_canonical<float, 24> on 0..255", spread<unsigned, Byte32>(5), 3); canonical<double, 53, W32>("generate_canonical<double, 53> on 32 bits", spread<unsigned, W32>(20), 2); canonical<double, 53, W64>("generate_canonical<double, 53> on 64 bits", spread<ull, W64>(60), 1); canonical<float, 24, W32>("generate_canonical<float, 24> on 32 bits", spread<unsigned, W32>(200), 1); canonical<double, 53, Byte32>("generate_canonical<double, 53> on 0..255", spread<unsigned, Byte32>(2), 7);
	std::vector<double> v = {0, 0.125, 0.25, 0.5, 0.625, 0.75, std::ldexp(1.0, -53), std::nextafter(1.0, 0)}; for (double x : v) { std::vector<double> t(3, x); MC_STATE("generate_canonical<double> on reals, answers " + tell(t)); Reals e(t), c(t); double a = sr::generate_canonical<double>(e); Reals const& k = c; auto b = sr::generate_canonical<double>(k); eq("canonical of a real", a, x); eq("canonical of a real from a constant source", b.first, x); eq("answers used", e.i, 1); eq("answers used of a constant source", b.second.i, 1); trace(); }
}
#endif
#if PART == 0 || PART == 3
typedef Tape<unsigned, 0, 255> Byte32; typedef Tape<unsigned, 0, 0xffffffffu> W32; typedef Tape<unsigned, 0, 15> Nibble; typedef Tape<unsigned, 0, 63> Six;
template<class RT> std::vector<RT> probabilities() { std::vector<RT> v; for (int k = 1; k < 16; ++k) v.push_back(RT(k) / 16); for (double x : {0.001, 0.01, 0.1, 0.3, 0.7, 0.9, 0.99, 0.999}) v.push_back((RT)x); return v; }
template<class IT, class RT> void geometric(char const* name) {
	for (RT p : probabilities<RT>()) { std::string w = std::string("geometric_distribution<") + name + "> " + str((double)p);
		auto oracle = [&](RT u) -> IT { return (IT)std::floor(std::log(RT(1) - u) / std::log(1 - p)); };
		tree<IT, Byte32>(w + " on 0..255", sr::geometric_distribution<IT, RT>(p), [&](Byte32& e) { return oracle(br::uniform_01<RT>()(e)); }, all<Byte32>(), 1, IT(0), std::numeric_limits<IT>::max());
		std::vector<unsigned> v; for (int k = 0; k < 1000; ++k) v.push_back(k * 4294967u); v.push_back(4294967295u); tree<IT, W32>(w + " on 32 bits", sr::geometric_distribution<IT, RT>(p), [&](W32& e) { return oracle(br::uniform_01<RT>()(e)); }, v, 1, IT(0), std::numeric_limits<IT>::max()); }
}
MC_SECTION(geometric) { geometric<int, double>("int, double"); geometric<long long, double>("long long, double"); geometric<int, float>("int, float"); }
template<class IT, class RT> void poisson(char const* name) {
	std::vector<RT> means; for (int k = 1; k <= 40; ++k) means.push_back(RT(k) / 4); for (int k = 10; k <= 30; k += thorough() ? 1 : 4) { means.push_back(RT(k)); means.push_back(RT(k) + RT(0.5)); } for (double x : {0.001, 0.01, 9.999, 100.0, 12345.0, 1e6}) means.push_back((RT)x);
	for (RT m : means) { std::string w = std::string("poisson_distribution<") + name + "> " + str((double)m); bool big = !(m < 10);
		tree<IT, Byte32>(w + " on 0..255", sr::poisson_distribution<IT, RT>(m), [&](Byte32& e) { return br::poisson_distribution<IT, RT>(m)(e); }, all<Byte32>(), big ? 2 : 1, IT(0), std::numeric_limits<IT>::max(), 0, !big);
		if (big) tree<IT, Six>(w + " on 0..63", sr::poisson_distribution<IT, RT>(m), [&](Six& e) { return br::poisson_distribution<IT, RT>(m)(e); }, all<Six>(), thorough() ? 4 : 3, IT(0), std::numeric_limits<IT>::max(), 0, false); }
}
// answers next to the source's maximum: the sums of probabilities end by rounding
template<class E, class D, class IT> void ends(std::string const& what, D const& d, IT lo, IT hi) {
	typedef typename E::result_type R; for (R k = 0; k < 64; ++k) for (unsigned sh = 0; sh < 8 * sizeof(R) - 8; sh += 4) { std::vector<R> t; for (int i = 0; i < 16; ++i) t.push_back(R(~R(0) - (k << sh))); t.push_back(0); t.push_back(0); t.push_back(R(~R(0) / 3)); MC_STATE(what + ", answers " + tell(t)); E e(t), c(t); D x(d); E const& cc = c; IT a = x(e), b = x(cc).result(); okd("in range at the end", lo <= a && a <= hi, [&] { return str((long long)a); }); eq("constant source at the end", b, a); trace(); }
}
typedef Tape<ull, 0, 0xffffffffffffffffull> W64;
MC_SECTION(ends) {
	for (double m : {0.01, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 9.5}) { ends<W32>("poisson_distribution<int, float> " + str(m) + " on 32 bits", sr::poisson_distribution<int, float>((float)m), 0, 200); ends<W64>("poisson_distribution<int, double> " + str(m) + " on 64 bits", sr::poisson_distribution<int, double>(m), 0, 200); }
	for (int t : {1, 2, 3, 5, 7, 10, 15, 20}) for (double p : {0.1, 0.25, 0.3, 0.4, 0.5, 0.7, 0.9}) { ends<W32>("binomial_distribution<int, float> " + str(t) + " x " + str(p) + " on 32 bits", sr::binomial_distribution<int, float>(t, (float)p), 0, t); ends<W64>("binomial_distribution<int, double> " + str(t) + " x " + str(p) + " on 64 bits", sr::binomial_distribution<int, double>(t, p), 0, t); }
}
MC_SECTION(poisson) { poisson<int, double>("int, double"); poisson<long long, double>("long long, double"); if (thorough()) poisson<int, float>("int, float"); }
template<class IT, class RT> void binomial(char const* name) {
	std::vector<IT> ts; for (IT t = 0; t <= 12; ++t) ts.push_back(t); for (IT t : {20, 21, 22, 25, 50, 100, 1000}) ts.push_back(t);
	std::vector<RT> ps = probabilities<RT>(); if (!thorough()) { std::vector<RT> few; for (std::size_t i = 0; i < ps.size(); i += 2) few.push_back(ps[i]); ps = few; } ps.push_back(0); ps.push_back(1);
	for (IT t : ts) for (RT p : ps) { std::string w = std::string("binomial_distribution<") + name + "> " + str((long long)t) + " x " + str((double)p); RT q = p > RT(0.5) ? 1 - p : p; bool big = (IT)((t + 1) * q) >= 11;
		tree<IT, Byte32>(w + " on 0..255", sr::binomial_distribution<IT, RT>(t, p), [&](Byte32& e) { return br::binomial_distribution<IT, RT>(t, p)(e); }, all<Byte32>(), big ? 2 : 1, IT(0), t, 0, !big);
		if (big) tree<IT, Nibble>(w + " on 0..15", sr::binomial_distribution<IT, RT>(t, p), [&](Nibble& e) { return br::binomial_distribution<IT, RT>(t, p)(e); }, all<Nibble>(), thorough() ? 5 : 4, IT(0), t, 0, false); }
}
MC_SECTION(binomial) { binomial<int, double>("int, double"); binomial<long long, double>("long long, double"); if (thorough()) binomial<int, float>("int, float"); }
#endif
#if PART == 0 || PART == 4
typedef Tape<unsigned, 0, 15> Nibble; typedef Tape<unsigned, 0, 0xffffffffu> W32;
template<class RT> void normal(char const* name) {
	RT const pi = RT(3.14159265358979323846264338327950288L); std::vector<unsigned> v; for (int k = 0; k < 16; ++k) v.push_back(k);
	std::vector<std::pair<RT, RT> > ms; for (double m : {0.0, 1.0, -5.0, 1000.0}) for (double s : {0.0, 0.5, 1.0, 3.0}) ms.push_back(std::make_pair((RT)m, (RT)s));
	for (auto const& q : ms) sequences(3, 16, [&](std::vector<int> const& c) {
		std::vector<unsigned> t = {(unsigned)c[0], (unsigned)c[1], (unsigned)c[2], (unsigned)(c[0] ^ 5)}; MC_STATE(std::string("normal_distribution<") + name + ">(" + str((double)q.first) + ", " + str((double)q.second) + "), answers " + tell(t) + " of 0..15");
		RT e[4]; for (int k = 0; k < 2; ++k) { RT r1 = t[2 * k] / RT(16), r2 = t[2 * k + 1] / RT(16), rho = std::sqrt(-2 * std::log(1 - r2)); e[2 * k] = rho * std::cos(2 * pi * r1) * q.second + q.first; e[2 * k + 1] = rho * std::sin(2 * pi * r1) * q.second + q.first; }
		RT const tol = 64 * std::numeric_limits<RT>::epsilon() * (1 + std::fabs(q.first) + q.second * 4); int const used[] = {2, 2, 4, 4};
		sr::normal_distribution<RT> d(q.first, q.second), k(q.first, q.second), o(q.first, q.second); Nibble g(t), h(t), gg(t);
		for (int i = 0; i < 4; ++i) { RT a = d(g); okd("normal value", std::fabs(a - e[i]) <= tol, [&] { return "draw " + str(i) + " gives " + str((double)a) + ", expected " + str((double)e[i]); }); eq("answers used", g.i, used[i]);
			Nibble const& ch = h; sr::normal_distribution<RT> const& ck = k; auto r = ck(ch); RT b = r.result(); okd("constant source", std::fabs(b - a) <= tol, [&] { return "draw " + str(i) + " gives " + str((double)b) + ", expected " + str((double)a); }); auto n = r.next(); h = Nibble(n.engine()); k = sr::normal_distribution<RT>(n.distribution()); eq("answers used of a constant source", h.i, used[i]); ok("same state", k == d && !(k != d));
			std::stringstream ss; ss << std::setprecision(std::numeric_limits<RT>::max_digits10) << d; sr::normal_distribution<RT> z; ss >> z; ok("read back", !ss.fail() && z == d); Nibble g2(g); if (g2.i < 4 || (i % 2 == 0)) { sr::normal_distribution<RT> d2(d); Nibble g3(g); eq("next of the restored", z(g2), d2(g3)); }
			sr::normal_distribution<RT> w(d); w.reset(); Nibble g4(t); g4.i = 0; RT x = w(g4); ok("after reset", std::fabs(x - e[0]) <= tol && g4.i == 2); }
		typename sr::normal_distribution<RT>::param_type p(q.first, q.second); sr::normal_distribution<RT> std_; RT x = std_(gg, p); ok("with parameters", std::fabs(x - e[0]) <= tol); trace(); });
}
MC_SECTION(normal) { normal<double>("double"); normal<float>("float"); normal<long double>("long double"); }
// parameters, comparison, text
template<class D, class P> void params(char const* name, std::vector<P> const& ps, std::vector<std::string> const& bad) {
	for (std::size_t i = 0; i < ps.size(); ++i) for (std::size_t j = 0; j < ps.size(); ++j) {
		MC_STATE(std::string(name) + " parameters " + str(i) + " and " + str(j)); D a(ps[i]), b(ps[j]); eq("==", a == b, i == j); eq("!=", a != b, i != j); eq("parameters ==", a.param() == b.param(), i == j); eq("parameters !=", a.param() != ps[j], i != j);
		D c; c.param(ps[i]); ok("param set", c == a && c.param() == ps[i]); D e(b); e = a; ok("assigned", e == a); c.reset(); ok("reset keeps parameters", c.param() == a.param());
		std::stringstream ss; ss << std::setprecision(17) << a << ' ' << ps[j] << ' ' << b; D x; P y; D z; ss >> x >> std::ws >> y >> std::ws >> z; ok("text", !ss.fail() && x == a && y == ps[j] && z == b); trace(); }
	for (auto const& t : bad) { MC_STATE(std::string(name) + " reading \"" + t + "\""); D d(ps[1]); P p(ps[1]); std::istringstream a(t), b(t); a >> d; b >> p; ok("bad text refused", a.fail() && b.fail()); ok("bad text leaves it alone", d == D(ps[1]) && p == ps[1]); trace(); }
}
template<class D> std::vector<typename D::param_type> pairs(std::vector<double> const& v, bool strict) { typedef typename D::param_type P; typedef typename D::input_type I; std::vector<P> r; for (double a : v) for (double b : v) if (a < b || (!strict && a == b)) r.push_back(P((I)a, (I)b)); return r; }
MC_SECTION(parameters) {
	params<sr::uniform_int_distribution<int> >("uniform_int_distribution<int>", pairs<sr::uniform_int_distribution<int> >({-2147483648.0, -3, 0, 1, 7, 2147483647.0}, false), {"", "3", "3 1", "x 4", "4 x"});
	params<sr::uniform_smallint<int> >("uniform_smallint<int>", pairs<sr::uniform_smallint<int> >({-3, 0, 1, 7, 2147483647.0}, false), {"", "3", "3 1", "x 4"});
	params<sr::uniform_int_distribution<unsigned long long> >("uniform_int_distribution<unsigned long long>", pairs<sr::uniform_int_distribution<unsigned long long> >({0, 1, 7, 1e18}, false), {"", "3", "3 1"});
	params<sr::uniform_real_distribution<double> >("uniform_real_distribution<double>", pairs<sr::uniform_real_distribution<double> >({-1e300, -3.25, 0, 0.1, 1, 7, 1e300}, true), {"", "3", "3 1", "x 4"});
	{ typedef sr::bernoulli_distribution<double> D; std::vector<D::param_type> v; for (double p : {0.0, 0.1, 0.25, 0.5, 1.0}) v.push_back(D::param_type(p)); params<D>("bernoulli", v, {"", "2", "-0.5", "x"}); }
	{ typedef sr::geometric_distribution<int, double> D; std::vector<D::param_type> v; for (double p : {0.1, 0.25, 0.5, 0.99}) v.push_back(D::param_type(p)); params<D>("geometric", v, {"", "1", "0", "2", "-0.5", "x"}); for (double p : {0.1, 0.25, 0.5, 0.99}) { MC_STATE("geometric p of " + str(p)); eq("geometric p", (double)D(p).p(), p); } }
	{ typedef sr::poisson_distribution<int, double> D; std::vector<D::param_type> v; for (double p : {0.1, 1.0, 9.5, 10.0, 500.5}) v.push_back(D::param_type(p)); params<D>("poisson", v, {"", "0", "-0.5", "x"}); for (double p : {0.1, 1.0, 9.5, 10.0}) { MC_STATE("poisson mean of " + str(p)); eq("poisson mean", (double)D(p).mean(), p); eq("poisson min", D(p).min(), 0); eq("poisson max", D(p).max(), 2147483647); } }
	{ typedef sr::binomial_distribution<int, double> D; std::vector<D::param_type> v; for (int t : {0, 1, 30}) for (double p : {0.0, 0.1, 0.5, 0.75, 1.0}) v.push_back(D::param_type(t, p)); params<D>("binomial", v, {"", "3", "-1 0.5", "3 2", "3 -0.5", "x 1"}); for (int t : {0, 1, 30}) for (double p : {0.1, 0.75}) { MC_STATE("binomial of " + str(t) + ", " + str(p)); D d(t, p); eq("binomial t", (int)d.t(), t); eq("binomial p", (double)d.p(), p); eq("binomial min", d.min(), 0); eq("binomial max", d.max(), t); } }
	{ typedef sr::normal_distribution<double> D; std::vector<D::param_type> v; for (double m : {-3.5, 0.0, 1e10}) for (double s : {0.0, 0.5, 2.0}) v.push_back(D::param_type(m, s)); params<D>("normal", v, {"", "3", "x 1"}); for (double m : {-3.5, 0.0}) { MC_STATE("normal of " + str(m)); D d(m, 2.5); eq("normal mean", (double)d.mean(), m); eq("normal sigma", (double)d.sigma(), 2.5); eq("normal stddev", (double)d.stddev(), 2.5); eq("normal min", d.min(), -std::numeric_limits<double>::infinity()); eq("normal max", d.max(), std::numeric_limits<double>::infinity()); } }
	for (int a : {-5, 0, 3}) for (int b : {3, 9}) { MC_STATE("ends " + str(a) + " and " + str(b)); sr::uniform_int_distribution<int> d(a, b); sr::uniform_smallint<int> s(a, b); eq("a", d.a(), a); eq("b", d.b(), b); eq("min", d.min(), a); eq("max", d.max(), b); eq("small a", s.a(), a); eq("small b", s.b(), b); eq("small min", s.min(), a); eq("small max", s.max(), b); if (a < b) { sr::uniform_real_distribution<double> r(a, b); eq("real a", r.a(), (double)a); eq("real b", r.b(), (double)b); eq("real min", r.min(), (double)a); eq("real max", r.max(), (double)b); } trace(); }
	{ MC_STATE("defaults"); sr::uniform_int_distribution<int> d; eq("default a", d.a(), 0); eq("default b", d.b(), 2147483647); sr::uniform_real_distribution<double> r; eq("default real a", r.a(), 0.0); eq("default real b", r.b(), 1.0); eq("default p", (double)sr::bernoulli_distribution<double>().p(), 0.5); eq("default mean", (double)sr::poisson_distribution<int>().mean(), 1.0); eq("default sigma", sr::normal_distribution<double>().sigma(), 1.0); eq("default t", (int)sr::binomial_distribution<int>().t(), 1); trace(); }
}
// generators: an engine and a distribution together, drawn from in every order of the ways to draw
template<class D> void generators(char const* name, D const& d) {
	std::vector<unsigned> tape; for (unsigned k = 0; k < 64; ++k) tape.push_back((k * 7 + 3) % 16);
	typedef sr::variate_generator<Nibble, D> G; char const* const names[] = {"constant draw", "next_value", "copy", "swap", "draw with the distribution"};
	sequences_upto(thorough() ? 6 : 4, 5, [&](std::vector<int> const& ops) {
		std::string s; for (int k : ops) s += std::string(s.empty() ? "" : ", ") + names[k]; MC_STATE(std::string("variate_generator of ") + name + ": " + s);
		Nibble e(tape); D x(d); G g((Nibble(tape)), (D(d)));
		for (int k : ops) switch (k) {
			case 0: { auto r = g(); eq("drawn", r.result(), x(e)); g = r.next(); break; }
			case 1: { auto r = g.next_value(); eq("next value", *r, x(e)); ++r; D x2(x); Nibble e2(e); eq("result incremented", *r, x2(e2)); auto r2 = g.next_value(); g = r2.next(); break; }
			case 2: { G h(g); auto r = h(); (void)r; G z; z = g; ok("copies equal", h == g && z == g && !(h != g)); g = z; break; }
			case 3: { G h((Nibble(tape)), (D(d))); G k0(g); swap(g, h); ok("swapped", h == k0); h.swap(g); ok("swapped back", g == k0); break; }
			case 4: { Nibble f(g.engine()); D y(g.distribution()); eq("drawn by hand", y(f), x(e)); G h(f, y); g = h; break; } }
		ok("engine of the generator", g.engine().i == e.i); eq("generator min", g.min(), d.min()); eq("generator max", g.max(), d.max()); trace(); });
	{ MC_STATE(std::string("combine of ") + name); Nibble e(tape), f(tape), c(tape); D x(d), y(d); auto g = sr::combine_copy(e, x); auto r = g(); D z(d); auto w = z(f); eq("combine_copy", r.result(), w); ok("engine untouched by a copy", e.i == 0 && r.next().engine().i == f.i); auto cc = sr::ccombine(e, x); auto q = cc(); eq("ccombine", q.result(), w); ok("engine untouched by a constant", e.i == 0); auto cb = sr::combine(c, y); auto v = cb(); eq("combine", v.result(), w); eq("engine moved on", c.i, f.i); trace(); }
	{ MC_STATE(std::string("generate_array of ") + name); Nibble e(tape), f(tape); D x(d), y(d); auto a = sr::generate_array<5>(e, x); for (int i = 0; i < 5; ++i) eq("array from a distribution", a[i], y(f)); eq("array leaves the engine", e.i, f.i); Nibble g(tape), k(tape); auto b = sr::generate_array<5>(g); for (int i = 0; i < 5; ++i) eq("array from an engine", b[i], tape[i]); Nibble const& ck = k; auto p = sr::generate_array<5>(ck); for (int i = 0; i < 5; ++i) eq("array from a constant engine", p.first[i], tape[i]); eq("engine after a constant array", p.second.i, 5); trace(); }
}
MC_SECTION(generators) { generators("uniform_int_distribution<int>", sr::uniform_int_distribution<int>(3, 8)); generators("uniform_real_distribution<double>", sr::uniform_real_distribution<double>(-1, 5)); generators("bernoulli_distribution", sr::bernoulli_distribution<double>(0.3)); generators("normal_distribution", sr::normal_distribution<double>(1, 2)); }
#endif
