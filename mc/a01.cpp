#include "iters.hpp"
#include "preds.hpp"
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/algorithm/find_intersection.hpp>
#include <sprout/algorithm/is_permutation.hpp>
#include <sprout/algorithm/min.hpp>
#include <sprout/algorithm/max.hpp>
#include <sprout/algorithm/minmax.hpp>
#include <sprout/algorithm/min_element.hpp>
#include <sprout/algorithm/max_element.hpp>
#include <sprout/algorithm/minmax_element.hpp>
#include <sprout/algorithm/lexicographical_compare.hpp>
#include <sprout/algorithm/tristate_lexicographical_compare.hpp>
#include <sprout/algorithm/clamp.hpp>
#include <sprout/algorithm/abs_diff.hpp>
#include <sprout/algorithm/fold_while.hpp>
#include <sprout/algorithm/fold_until.hpp>
#include <algorithm>
using namespace mc;
typedef std::vector<int> V;

static V oracle_text;
// ---- one range -----------------------------------------------------------------------------------------------
template<class Tag> void one_range(V const& v, int probes) {
	MC_STATE(std::string(tagname<Tag>::n()) + " range " + str(v));
	trace();
	typedef typename mk<int const, Tag>::type I;
	Buf<int> b(v, 0);
	int n = (int)v.size();
	I f = b.template cit<Tag>(0), l = b.template cit<Tag>(n);
	#define POS(x) b.pos(x)
	#define O(x) (int)((x) - v.begin())
	for (int c = 0; c < probes; ++c) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " probe " + str(c));
		b.init(v, c); f = b.template cit<Tag>(0); l = b.template cit<Tag>(n);
		int cnt = (int)std::count(v.begin(), v.end(), c);
		eq("find", POS(sprout::find(f, l, c)), O(std::find(v.begin(), v.end(), c)));
		eq("find_if", POS(sprout::find_if(f, l, Is(c))), O(std::find_if(v.begin(), v.end(), Is(c))));
		eq("find_if_not", POS(sprout::find_if_not(f, l, Is(c))), O(std::find_if_not(v.begin(), v.end(), Is(c))));
		eq("count", (int)sprout::count(f, l, c), cnt);
		eq("count_if", (int)sprout::count_if(f, l, Is(c)), cnt);
		eq("all_of", sprout::all_of(f, l, Is(c)), cnt == n);
		eq("any_of", sprout::any_of(f, l, Is(c)), cnt > 0);
		eq("none_of", sprout::none_of(f, l, Is(c)), cnt == 0);
		eq("one_of", sprout::one_of(f, l, Is(c)), cnt == 1);
		eq("all_of_equal", sprout::all_of_equal(f, l, c), cnt == n);
		eq("any_of_equal", sprout::any_of_equal(f, l, c), cnt > 0);
		eq("none_of_equal", sprout::none_of_equal(f, l, c), cnt == 0);
		eq("one_of_equal", sprout::one_of_equal(f, l, c), cnt == 1);
		for (int k = 0; k <= std::min(n + 1, 5); ++k) {
			MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " probe " + str(c) + " count " + str(k));
			eq("search_n", POS(sprout::search_n(f, l, k, c)), O(std::search_n(v.begin(), v.end(), k, c)));
			eq("search_n(equal)", POS(sprout::search_n(f, l, k, c, Eq())), O(std::search_n(v.begin(), v.end(), k, c, Eq())));
			eq("search_n(pred)", POS(sprout::search_n(f, l, k, c, Leq())), O(std::search_n(v.begin(), v.end(), k, c, Leq())));
			eq("search_n(parity)", POS(sprout::search_n(f, l, k, c, Par())), O(std::search_n(v.begin(), v.end(), k, c, Par())));
		}
		// folds stop at the predicate on the accumulated value
		{
			int acc = 1; for (int i = 0; i < n && !(acc % 5 == c); ++i) acc = acc * 3 + v[i] + 1;
			struct Op { int operator()(int a, int x) const { return a * 3 + x + 1; } };
			struct St { int c; bool operator()(int a) const { return a % 5 == c; } };
			struct Go { int c; bool operator()(int a) const { return !(a % 5 == c); } };
			St st = {c}; Go go = {c};
			if (n <= 12) {
				eq("fold_until", sprout::fold_until(f, l, 1, Op(), st), acc);
				eq("fold_while", sprout::fold_while(f, l, 1, Op(), go), acc);
			}
		}
	}
	eq("adjacent_find", POS(sprout::adjacent_find(f, l)), O(std::adjacent_find(v.begin(), v.end())));
	eq("adjacent_find(equal)", POS(sprout::adjacent_find(f, l, Eq())), O(std::adjacent_find(v.begin(), v.end(), Eq())));
	eq("adjacent_find(less)", POS(sprout::adjacent_find(f, l, Less())), O(std::adjacent_find(v.begin(), v.end(), Less())));
	eq("adjacent_find(greater)", POS(sprout::adjacent_find(f, l, Greater())), O(std::adjacent_find(v.begin(), v.end(), Greater())));
	eq("min_element", POS(sprout::min_element(f, l)), O(std::min_element(v.begin(), v.end())));
	eq("max_element", POS(sprout::max_element(f, l)), O(std::max_element(v.begin(), v.end())));
	eq("min_element(comp)", POS(sprout::min_element(f, l, ParLess())), O(std::min_element(v.begin(), v.end(), ParLess())));
	eq("max_element(comp)", POS(sprout::max_element(f, l, ParLess())), O(std::max_element(v.begin(), v.end(), ParLess())));
	eq("min_element(greater)", POS(sprout::min_element(f, l, Greater())), O(std::min_element(v.begin(), v.end(), Greater())));
	eq("max_element(greater)", POS(sprout::max_element(f, l, Greater())), O(std::max_element(v.begin(), v.end(), Greater())));
	#define MM(name, ...) { auto r = sprout::minmax_element(f, l __VA_ARGS__); auto s = std::minmax_element(v.begin(), v.end() __VA_ARGS__); \
		eq(name ".first", POS(r.first), O(s.first)); eq(name ".second", POS(r.second), O(s.second)); }
	#define COMMA ,
	MM("minmax_element", )
	MM("minmax_element(comp)", COMMA ParLess())
	MM("minmax_element(greater)", COMMA Greater())
}
template<class Tag> void one_all() {
	sequences_upto(thorough() ? 8 : 6, 3, [](V const& v) { one_range<Tag>(v, 4); });
	int L = thorough() ? 70 : 36;
	for (int n = 7; n <= L; ++n) for (int base = 0; base < 2; ++base) deviations(n, base, 2, 2, [&](V const& v) { one_range<Tag>(v, 2); });
	for (int n = 7; n <= (thorough() ? 40 : 20); ++n) deviations(n, 1, 3, 2, [&](V const& v) { one_range<Tag>(v, 3); });
	// long runs: every start and length of a run of 1s
	for (int n = 7; n <= (thorough() ? 40 : 24); ++n) for (int s = 0; s < n; ++s) for (int k = 3; s + k <= n; ++k) {
		V v(n, 0); for (int i = s; i < s + k; ++i) v[i] = 1; one_range<Tag>(v, 2);
	}
	// sorted and reverse sorted, distinct
	for (int n = 7; n <= 64; ++n) { V v(n), w(n); for (int i = 0; i < n; ++i) { v[i] = i; w[i] = n - 1 - i; } one_range<Tag>(v, 2); one_range<Tag>(w, 2); }
	bound("lengths", "0..6 (8) over 3 letters, 7..36 (70) with 2 deviations");
}
MC_SECTION(one_forward) { one_all<fwd>(); }
MC_SECTION(one_bidirectional) { one_all<bidi>(); }
MC_SECTION(one_random_access) { one_all<ra>(); }
MC_SECTION(one_pointer) { one_all<Ptr>(); }
MC_SECTION(one_forward_nonliteral) { sequences_upto(5, 3, [](V const& v) { one_range<NLFwd>(v, 4); }); }

// ---- text and pattern ----------------------------------------------------------------------------------------
template<class T1, class T2> void pattern(V const& v, V const& p) {
	MC_STATE(std::string(tagname<T1>::n()) + "/" + tagname<T2>::n() + " text " + str(v) + " pattern " + str(p));
	trace();
	Buf<int> b(v, p.empty() ? 0 : p.back()), q(p, v.empty() ? 0 : v.back());
	auto f = b.template cit<T1>(0), l = b.template cit<T1>((int)v.size());
	auto pf = q.template cit<T2>(0), pl = q.template cit<T2>((int)p.size());
	#define TWO(name, call, ...) \
		eq(name, POS(sprout::call(f, l, pf, pl)), O(std::call(v.begin(), v.end(), p.begin(), p.end()))); \
		eq(name "(equal)", POS(sprout::call(f, l, pf, pl, Eq())), O(std::call(v.begin(), v.end(), p.begin(), p.end(), Eq()))); \
		eq(name "(parity)", POS(sprout::call(f, l, pf, pl, Par())), O(std::call(v.begin(), v.end(), p.begin(), p.end(), Par()))); \
		eq(name "(less)", POS(sprout::call(f, l, pf, pl, Less())), O(std::call(v.begin(), v.end(), p.begin(), p.end(), Less())));
	TWO("search", search)
	TWO("find_end", find_end)
	TWO("find_first_of", find_first_of)
	sprout::default_searcher<decltype(pf)> ds(pf, pl);
	eq("default_searcher", POS(sprout::search(f, l, ds)), O(std::search(v.begin(), v.end(), p.begin(), p.end())));
	sprout::default_searcher<decltype(pf), Leq> ds2(pf, pl, Leq());
	eq("default_searcher(pred)", POS(sprout::search(f, l, ds2)), O(std::search(v.begin(), v.end(), p.begin(), p.end(), Leq())));
}
template<class T1, class T2> void pattern_all() {
	int pmax = thorough() ? 4 : 3;
	std::vector<V> ps; sequences_upto(pmax, 3, [&](V const& p) { ps.push_back(p); });
	sequences_upto(thorough() ? 7 : 5, 3, [&](V const& v) { for (auto& p : ps) pattern<T1, T2>(v, p); });
	std::vector<V> p2; sequences_upto(thorough() ? 6 : 5, 2, [&](V const& p) { p2.push_back(p); });
	for (int n = 6; n <= (thorough() ? 10 : 8); ++n) sequences(n, 2, [&](V const& v) { for (auto& p : p2) pattern<T1, T2>(v, p); });
	for (int n = 11; n <= (thorough() ? 40 : 22); ++n) deviations(n, 0, 2, 2, [&](V const& v) {
		static const V ps[] = {{1}, {0, 1}, {1, 0}, {0, 0, 1}, {1, 1}, {1, 0, 1}, {1, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0}};
		for (auto& p : ps) pattern<T1, T2>(v, p);
	});
	bound("text x pattern", "3 letters 5x3 (7x4), 2 letters 8x5 (10x6), long with 2 deviations to 22 (40)");
}
MC_SECTION(pattern_ff) { pattern_all<fwd, fwd>(); }
MC_SECTION(pattern_rr) { pattern_all<ra, ra>(); }
MC_SECTION(pattern_rf) { pattern_all<ra, fwd>(); }
MC_SECTION(pattern_fr) { pattern_all<fwd, ra>(); }
MC_SECTION(pattern_bb) { pattern_all<bidi, bidi>(); }
MC_SECTION(pattern_pp) { pattern_all<Ptr, Ptr>(); }

// ---- two ranges ----------------------------------------------------------------------------------------------
static int sgn(int x) { return (x > 0) - (x < 0); }
template<class C> int tri(V const& a, V const& b, C c) {
	for (size_t i = 0; ; ++i) {
		if (i == a.size()) return i == b.size() ? 0 : -1;
		if (i == b.size()) return 1;
		if (c(a[i], b[i])) return -1;
		if (c(b[i], a[i])) return 1;
	}
}
template<class T1, class T2> void two(V const& v, V const& w) {
	MC_STATE(std::string(tagname<T1>::n()) + "/" + tagname<T2>::n() + " ranges " + str(v) + " " + str(w));
	trace();
	Buf<int> b(v, w.empty() ? 7 : w.back()), q(w, v.empty() ? 7 : v.back());
	auto f = b.template cit<T1>(0), l = b.template cit<T1>((int)v.size());
	auto g_ = q.template cit<T2>(0), m = q.template cit<T2>((int)w.size());
	#define MIS4(name, C) { auto r = sprout::mismatch(f, l, g_, m, C); size_t i = 0; while (i < v.size() && i < w.size() && C(v[i], w[i])) ++i; \
		eq(name ".first", POS(r.first), (int)i); eq(name ".second", q.pos(r.second), (int)i); }
	{ auto r = sprout::mismatch(f, l, g_, m); size_t i = 0; while (i < v.size() && i < w.size() && v[i] == w[i]) ++i; eq("mismatch4.first", POS(r.first), (int)i); eq("mismatch4.second", q.pos(r.second), (int)i); }
	MIS4("mismatch4(less)", Less()) MIS4("mismatch4(parity)", Par())
	auto eqv = [&](bool (*c)(int, int)) { if (v.size() != w.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (!c(v[i], w[i])) return false; return true; };
	eq("equal4", sprout::equal(f, l, g_, m), v == w);
	eq("equal4(equal)", sprout::equal(f, l, g_, m, Eq()), v == w);
	eq("equal4(parity)", sprout::equal(f, l, g_, m, Par()), eqv([](int a, int b) { return Par()(a, b); }));
	eq("equal4(leq)", sprout::equal(f, l, g_, m, Leq()), eqv([](int a, int b) { return a <= b; }));
	if (v.size() <= w.size()) {
		#define MIS3(name, C) { auto r = sprout::mismatch(f, l, g_, C); auto s = std::mismatch(v.begin(), v.end(), w.begin(), C); eq(name ".first", POS(r.first), O(s.first)); eq(name ".second", q.pos(r.second), (int)(s.second - w.begin())); }
		{ auto r = sprout::mismatch(f, l, g_); auto s = std::mismatch(v.begin(), v.end(), w.begin()); eq("mismatch3.first", POS(r.first), O(s.first)); eq("mismatch3.second", q.pos(r.second), (int)(s.second - w.begin())); }
		MIS3("mismatch3(less)", Less()) MIS3("mismatch3(parity)", Par())
		eq("equal3", sprout::equal(f, l, g_), std::equal(v.begin(), v.end(), w.begin()));
		eq("equal3(leq)", sprout::equal(f, l, g_, Leq()), std::equal(v.begin(), v.end(), w.begin(), Leq()));
		eq("is_permutation3", sprout::is_permutation(f, l, g_), std::is_permutation(v.begin(), v.end(), w.begin()));
		eq("is_permutation3(parity)", sprout::is_permutation(f, l, g_, Par()), std::is_permutation(v.begin(), v.end(), w.begin(), Par()));
	}
	eq("is_permutation4", sprout::is_permutation(f, l, g_, m), v.size() == w.size() && std::is_permutation(v.begin(), v.end(), w.begin()));
	eq("is_permutation4(parity)", sprout::is_permutation(f, l, g_, m, Par()), v.size() == w.size() && std::is_permutation(v.begin(), v.end(), w.begin(), Par()));
	eq("lexicographical_compare", sprout::lexicographical_compare(f, l, g_, m), std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()));
	eq("lexicographical_compare(greater)", sprout::lexicographical_compare(f, l, g_, m, Greater()), std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end(), Greater()));
	eq("lexicographical_compare(parity)", sprout::lexicographical_compare(f, l, g_, m, ParLess()), std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end(), ParLess()));
	eq("tristate_lexicographical_compare", sgn(sprout::tristate_lexicographical_compare(f, l, g_, m)), tri(v, w, Less()));
	eq("tristate_lexicographical_compare(greater)", sgn(sprout::tristate_lexicographical_compare(f, l, g_, m, Greater())), tri(v, w, Greater()));
	eq("tristate_lexicographical_compare(parity)", sgn(sprout::tristate_lexicographical_compare(f, l, g_, m, ParLess())), tri(v, w, ParLess()));
	// delimited: each range ends at the first delimiter or at its end (as in strncmp: ranges of equal length, or both delimited)
	V vd(v.begin(), std::find(v.begin(), v.end(), 0)), wd(w.begin(), std::find(w.begin(), w.end(), 1));
	bool vz = vd.size() < v.size(), w1 = wd.size() < w.size();
	if ((vz && w1) || v.size() == w.size()) eq("tristate_lexicographical_compare(delim)", sgn(sprout::tristate_lexicographical_compare(f, l, 0, g_, m, 1)), tri(vd, wd, Less()));
	V wd2(w.begin(), std::find(w.begin(), w.end(), 0));
	if ((vz && wd2.size() < w.size()) || v.size() == w.size()) eq("tristate_lexicographical_compare(delim,greater)", sgn(sprout::tristate_lexicographical_compare(f, l, 0, g_, m, 0, Greater())), tri(vd, wd2, Greater()));
}
template<class T1, class T2> void two_all() {
	int n = thorough() ? 6 : 4;
	std::vector<V> s; sequences_upto(n, 3, [&](V const& v) { s.push_back(v); });
	for (auto& a : s) for (auto& c : s) two<T1, T2>(a, c);
	std::vector<V> t; for (int k = n + 1; k <= n + 3; ++k) sequences(k, 2, [&](V const& v) { t.push_back(v); });
	for (auto& a : t) for (auto& c : t) two<T1, T2>(a, c);
	for (int n = 8; n <= (thorough() ? 40 : 20); ++n) {
		V z(n, 2);
		deviations(n, 2, 3, 2, [&](V const& v) {
			two<T1, T2>(z, v); two<T1, T2>(v, z);
			V u(v); u.push_back(2); two<T1, T2>(v, u); two<T1, T2>(u, v);
			V r(v.rbegin(), v.rend()); two<T1, T2>(v, r);
			u.pop_back(); std::rotate(u.begin(), u.begin() + 1, u.end()); two<T1, T2>(v, u);
		});
	}
}
// distinct elements: one replaced by a new value or by a copy of another, two exchanged, rotated by every amount
template<class T1, class T2> void distinct_all() {
	for (int n = 1; n <= (thorough() ? 34 : 18); ++n) {
		V z(n); for (int i = 0; i < n; ++i) z[i] = i + 2;
		for (int p = 0; p < n; ++p) {
			V v(z); v[p] = 99; two<T1, T2>(z, v); two<T1, T2>(v, z);
			V u(z); u[p] = 98; two<T1, T2>(u, v);
			v[p] = v[(p + 1) % n]; two<T1, T2>(z, v); two<T1, T2>(v, z);
			for (int q = 0; q < n; ++q) { V w(z); std::swap(w[p], w[q]); two<T1, T2>(z, w); w[p] = 97; two<T1, T2>(w, u); }
			V w(z); std::rotate(w.begin(), w.begin() + p, w.end()); two<T1, T2>(z, w); two<T1, T2>(u, w);
		}
	}
	bound("distinct elements", "length<=18 (34), one replaced, two exchanged, every rotation");
}
MC_SECTION(distinct_ff) { distinct_all<fwd, fwd>(); }
MC_SECTION(distinct_rr) { distinct_all<ra, ra>(); }
MC_SECTION(distinct_rf) { distinct_all<ra, fwd>(); }
MC_SECTION(distinct_pp) { distinct_all<Ptr, Ptr>(); }
MC_SECTION(two_ff) { two_all<fwd, fwd>(); }
MC_SECTION(two_rr) { two_all<ra, ra>(); }
MC_SECTION(two_rf) { two_all<ra, fwd>(); }
MC_SECTION(two_bb) { two_all<bidi, bidi>(); }
MC_SECTION(two_pp) { two_all<Ptr, Ptr>(); }

// ---- values --------------------------------------------------------------------------------------------------
MC_SECTION(values) {
	for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
		MC_STATE("values " + str(a) + " " + str(b)); trace();
		KV x(a, 1), y(b, 2); // identity decides ties
		#define KVEQ(name, e) eq(name, sprout::e, std::e)
		eq("min", sprout::min(x, y), std::min(x, y)); eq("max", sprout::max(x, y), std::max(x, y));
		eq("min(comp)", sprout::min(x, y, KeyGreater()), std::min(x, y, KeyGreater())); eq("max(comp)", sprout::max(x, y, KeyGreater()), std::max(x, y, KeyGreater()));
		{ auto r = sprout::minmax(x, y); auto s = std::minmax(x, y); eq("minmax.first", r.first, s.first); eq("minmax.second", r.second, s.second); }
		{ auto r = sprout::minmax(x, y, KeyGreater()); auto s = std::minmax(x, y, KeyGreater()); eq("minmax(comp).first", r.first, s.first); eq("minmax(comp).second", r.second, s.second); }
		ok("min returns its argument", &sprout::min(x, y) == &std::min(x, y)); ok("max returns its argument", &sprout::max(x, y) == &std::max(x, y));
		eq("abs_diff", sprout::abs_diff(a, b), std::abs(a - b)); eq("abs_diff(comp)", sprout::abs_diff(a, b, Greater()), -std::abs(a - b));
		eq("abs_diff unsigned", sprout::abs_diff((unsigned)(a + 3), (unsigned)(b + 3)), (unsigned)std::abs(a - b));
		for (int c = -3; c <= 3; ++c) {
			KV z(c, 3);
			if (!(c < b)) eq("clamp", sprout::clamp(x, y, z), a < b ? y : c < a ? z : x);
			if (!(b < c)) eq("clamp(comp)", sprout::clamp(x, y, z, KeyGreater()), a > b ? y : c > a ? z : x);
			eq("min{}", sprout::min({x, y, z}), std::min({x, y, z})); eq("max{}", sprout::max({x, y, z}), std::max({x, y, z}));
			{ auto r = sprout::minmax({x, y, z}); auto s = std::minmax({x, y, z}); eq("minmax{}.first", r.first, s.first); eq("minmax{}.second", r.second, s.second); }
			eq("min{comp}", sprout::min({x, y, z}, KeyGreater()), std::min({x, y, z}, KeyGreater())); eq("max{comp}", sprout::max({x, y, z}, KeyGreater()), std::max({x, y, z}, KeyGreater()));
			{ auto r = sprout::minmax({x, y, z}, KeyGreater()); auto s = std::minmax({x, y, z}, KeyGreater()); eq("minmax{comp}.first", r.first, s.first); eq("minmax{comp}.second", r.second, s.second); }
			for (int d = -1; d <= 1; ++d) for (int e = -1; e <= 1; ++e) {
				KV u(d, 4), w(e, 5);
				eq("min{5}", sprout::min({x, y, z, u, w}), std::min({x, y, z, u, w})); eq("max{5}", sprout::max({x, y, z, u, w}), std::max({x, y, z, u, w}));
				auto r = sprout::minmax({x, y, z, u, w}); auto s = std::minmax({x, y, z, u, w}); eq("minmax{5}.first", r.first, s.first); eq("minmax{5}.second", r.second, s.second);
			}
		}
	}
}
