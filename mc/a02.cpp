#include "iters.hpp"
#include "preds.hpp"
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/find_intersection.hpp>
#include <sprout/algorithm/find_difference.hpp>
#include <sprout/algorithm/find_symmetric_difference.hpp>
#include <sprout/algorithm/next_intersection.hpp>
#include <sprout/algorithm/next_difference.hpp>
#include <sprout/algorithm/next_symmetric_difference.hpp>
#include <sprout/algorithm/next_union.hpp>
#include <sprout/algorithm/is_heap.hpp>
#include <sprout/algorithm/is_increasing.hpp>
#include <sprout/algorithm/is_decreasing.hpp>
#include <sprout/algorithm/is_strictly_increasing.hpp>
#include <sprout/algorithm/is_strictly_decreasing.hpp>
#include <algorithm>
using namespace mc;
typedef std::vector<int> V;
#define POS(x) b.pos(x)
#define O(x) (int)((x) - v.begin())

// ---- deciders on arbitrary ranges ----------------------------------------------------------------------------
template<class I, class B, class Cat> struct heap_part { static void go(V const&, B&, I, I) {} };
template<class I, class B> void heap(V const& v, B& b, I f, I l, std::true_type) {
	eq("is_heap_until", POS(sprout::is_heap_until(f, l)), O(std::is_heap_until(v.begin(), v.end())));
	eq("is_heap_until(greater)", POS(sprout::is_heap_until(f, l, Greater())), O(std::is_heap_until(v.begin(), v.end(), Greater())));
	eq("is_heap_until(parity)", POS(sprout::is_heap_until(f, l, ParLess())), O(std::is_heap_until(v.begin(), v.end(), ParLess())));
	eq("is_heap", sprout::is_heap(f, l), std::is_heap(v.begin(), v.end()));
	eq("is_heap(greater)", sprout::is_heap(f, l, Greater()), std::is_heap(v.begin(), v.end(), Greater()));
}
template<class I, class B> void heap(V const&, B&, I, I, std::false_type) {}
template<class Tag> struct is_ra : std::integral_constant<bool, std::is_same<Tag, ra>::value || std::is_same<Tag, Ptr>::value> {};

template<class Tag> void decide(V const& v, int guard) {
	MC_STATE(std::string(tagname<Tag>::n()) + " range " + str(v)); trace();
	Buf<int> b(v, guard); int n = (int)v.size();
	auto f = b.template cit<Tag>(0), l = b.template cit<Tag>(n);
	eq("is_sorted", sprout::is_sorted(f, l), std::is_sorted(v.begin(), v.end()));
	eq("is_sorted(greater)", sprout::is_sorted(f, l, Greater()), std::is_sorted(v.begin(), v.end(), Greater()));
	eq("is_sorted(parity)", sprout::is_sorted(f, l, ParLess()), std::is_sorted(v.begin(), v.end(), ParLess()));
	eq("is_sorted_until", POS(sprout::is_sorted_until(f, l)), O(std::is_sorted_until(v.begin(), v.end())));
	eq("is_sorted_until(greater)", POS(sprout::is_sorted_until(f, l, Greater())), O(std::is_sorted_until(v.begin(), v.end(), Greater())));
	eq("is_sorted_until(parity)", POS(sprout::is_sorted_until(f, l, ParLess())), O(std::is_sorted_until(v.begin(), v.end(), ParLess())));
	auto all = [&](bool (*c)(int, int)) { for (int i = 0; i + 1 < n; ++i) if (!c(v[i], v[i + 1])) return false; return true; };
	eq("is_increasing", sprout::is_increasing(f, l), all([](int x, int y) { return x <= y; }));
	eq("is_decreasing", sprout::is_decreasing(f, l), all([](int x, int y) { return x >= y; }));
	eq("is_strictly_increasing", sprout::is_strictly_increasing(f, l), all([](int x, int y) { return x < y; }));
	eq("is_strictly_decreasing", sprout::is_strictly_decreasing(f, l), all([](int x, int y) { return x > y; }));
	eq("is_partitioned", sprout::is_partitioned(f, l, Even()), std::is_partitioned(v.begin(), v.end(), Even()));
	eq("is_partitioned(lt)", sprout::is_partitioned(f, l, Lt(1)), std::is_partitioned(v.begin(), v.end(), Lt(1)));
	heap(v, b, f, l, is_ra<Tag>());
}
template<class Tag> void decide_all() {
	sequences_upto(thorough() ? 10 : 7, 3, [](V const& v) { decide<Tag>(v, 0); });
	sequences_upto(thorough() ? 7 : 5, 4, [](V const& v) { decide<Tag>(v, 3); });
	for (int n = 8; n <= (thorough() ? 80 : 40); ++n) {
		for (int base = 0; base < 3; ++base) deviations(n, base, 3, 2, [&](V const& v) { decide<Tag>(v, 1); });
		// ascending / descending with one cell out of place
		V a(n), d(n); for (int i = 0; i < n; ++i) { a[i] = i; d[i] = n - i; }
		decide<Tag>(a, 0); decide<Tag>(d, 0);
		for (int i = 0; i < n; ++i) for (int x = -1; x <= 1; ++x) { V q(a); q[i] += 3 * x - 1; decide<Tag>(q, 0); q = d; q[i] += 3 * x + 1; decide<Tag>(q, 0); q = d; q[i] = x < 0 ? 0 : x > 0 ? 2 * n : d[i / 2]; decide<Tag>(q, 0); }
		// two runs
		for (int i = 0; i <= n; ++i) { V q(n); for (int j = 0; j < n; ++j) q[j] = j < i ? 1 : 2; decide<Tag>(q, 0); for (int j = 0; j < n; ++j) q[j] = j < i ? 2 : 1; decide<Tag>(q, 0); }
	}
}
MC_SECTION(decide_forward) { decide_all<fwd>(); }
MC_SECTION(decide_bidirectional) { decide_all<bidi>(); }
MC_SECTION(decide_random_access) { decide_all<ra>(); }
MC_SECTION(decide_pointer) { decide_all<Ptr>(); }

// ---- bisection -----------------------------------------------------------------------------------------------
template<class Tag, class C> void bisect(V const& v, int lo, int hi, C c, bool natural) { // v sorted by c
	MC_STATE(std::string(tagname<Tag>::n()) + " sorted " + str(v)); trace();
	Buf<int> b(v, v.empty() ? 0 : v[0]); int n = (int)v.size();
	auto f = b.template cit<Tag>(0), l = b.template cit<Tag>(n);
	for (int x = lo; x <= hi; ++x) {
		MC_DESC(std::string(tagname<Tag>::n()) + " sorted " + str(v) + " probe " + str(x) + (natural ? "" : " custom order"));
		auto sl = std::lower_bound(v.begin(), v.end(), x, c), su = std::upper_bound(v.begin(), v.end(), x, c);
		eq("lower_bound(comp)", POS(sprout::lower_bound(f, l, x, c)), O(sl));
		eq("upper_bound(comp)", POS(sprout::upper_bound(f, l, x, c)), O(su));
		auto r = sprout::equal_range(f, l, x, c);
		eq("equal_range(comp).first", POS(r.first), O(sl)); eq("equal_range(comp).second", POS(r.second), O(su));
		eq("binary_search(comp)", sprout::binary_search(f, l, x, c), sl != su);
		if (natural) {
			eq("lower_bound", POS(sprout::lower_bound(f, l, x)), O(sl));
			eq("upper_bound", POS(sprout::upper_bound(f, l, x)), O(su));
			auto q = sprout::equal_range(f, l, x);
			eq("equal_range.first", POS(q.first), O(sl)); eq("equal_range.second", POS(q.second), O(su));
			eq("binary_search", sprout::binary_search(f, l, x), sl != su);
			eq("partition_point", POS(sprout::partition_point(f, l, Lt(x))), O(sl));
		}
	}
}
template<class Tag> void bisect_all() {
	sequences_upto(thorough() ? 9 : 7, 5, [](V const& u) {
		V v(u); for (size_t i = 1; i < v.size(); ++i) if (v[i] < v[i - 1]) return; // every sorted sequence once
		for (size_t i = 0; i < v.size(); ++i) v[i] *= 2;
		bisect<Tag>(v, -1, 9, Less(), true);
		V r(v.rbegin(), v.rend()); bisect<Tag>(r, -1, 9, Greater(), false);
	});
	sequences_upto(thorough() ? 7 : 6, 4, [](V const& v) { if (std::is_sorted(v.begin(), v.end(), ParLess())) bisect<Tag>(v, 0, 3, ParLess(), false); });
	for (int n = 0; n <= (thorough() ? 140 : 70); ++n) {
		V a(n); for (int i = 0; i < n; ++i) a[i] = 2 * i; bisect<Tag>(a, -1, 2 * n + 1, Less(), true);
		for (int i = 0; i <= n; ++i) for (int j = i; j <= n; j += (n > 30 ? 3 : 1)) { V q(n, 0); for (int k = 0; k < n; ++k) q[k] = k < i ? 0 : k < j ? 2 : 4; bisect<Tag>(q, -1, 5, Less(), true); }
	}
	// partitioned but not sorted
	sequences_upto(thorough() ? 8 : 6, 4, [](V const& v) {
		if (!std::is_partitioned(v.begin(), v.end(), Even())) return;
		MC_STATE(std::string(tagname<Tag>::n()) + " partitioned " + str(v)); trace();
		Buf<int> b(v, 0);
		eq("partition_point(even)", POS(sprout::partition_point(b.template cit<Tag>(0), b.template cit<Tag>((int)v.size()), Even())), O(std::partition_point(v.begin(), v.end(), Even())));
	});
	bound("bisection", "sorted 5 letters to 7 (9); every run boundary pair to 70 (140)");
}
MC_SECTION(bisect_forward) { bisect_all<fwd>(); }
MC_SECTION(bisect_bidirectional) { bisect_all<bidi>(); }
MC_SECTION(bisect_random_access) { bisect_all<ra>(); }
MC_SECTION(bisect_pointer) { bisect_all<Ptr>(); }
MC_SECTION(bisect_forward_nonliteral) { sequences_upto(5, 4, [](V const& v) { if (std::is_sorted(v.begin(), v.end())) bisect<NLFwd>(v, -1, 4, Less(), true); }); }

// ---- merge walks ---------------------------------------------------------------------------------------------
template<class T1, class T2, class C> void merge2(V const& v, V const& w, C c, bool natural) {
	MC_STATE(std::string(tagname<T1>::n()) + "/" + tagname<T2>::n() + " sorted " + str(v) + " " + str(w) + (natural ? "" : " custom order")); trace();
	Buf<int> b(v, w.empty() ? 0 : w.back()), q(w, v.empty() ? 0 : v.back()); int n = (int)v.size(), m = (int)w.size();
	auto f = b.template cit<T1>(0), l = b.template cit<T1>(n); auto g_ = q.template cit<T2>(0), h = q.template cit<T2>(m);
	typedef std::pair<int, int> P;
	bool inc = std::includes(v.begin(), v.end(), w.begin(), w.end(), c);
	eq("includes(comp)", sprout::includes(f, l, g_, h, c), inc);
	// reference walk of two sorted ranges
	auto isect = [&](int i, int j) { while (i < n && j < m) { if (c(v[i], w[j])) ++i; else if (c(w[j], v[i])) ++j; else return P(i, j); } return P(n, m); };
	auto diff = [&](int i, int j) { while (i < n) { if (j == m || c(v[i], w[j])) return P(i, j); if (c(w[j], v[i])) ++j; else { ++i; ++j; } } return P(n, m); };
	auto sym = [&](int i, int j) { while (i < n && j < m && !c(v[i], w[j]) && !c(w[j], v[i])) { ++i; ++j; } return P(i, j); };
	#define PP(e) ([&]() { auto r_ = e; return P(POS(r_.first), q.pos(r_.second)); }())
	eq("find_intersection(comp)", PP(sprout::find_intersection(f, l, g_, h, c)), isect(0, 0));
	eq("find_difference(comp)", PP(sprout::find_difference(f, l, g_, h, c)), diff(0, 0));
	eq("find_symmetric_difference(comp)", PP(sprout::find_symmetric_difference(f, l, g_, h, c)), sym(0, 0));
	if (natural) {
		eq("includes", sprout::includes(f, l, g_, h), inc);
		eq("find_intersection", PP(sprout::find_intersection(f, l, g_, h)), isect(0, 0));
		eq("find_difference", PP(sprout::find_difference(f, l, g_, h)), diff(0, 0));
		eq("find_symmetric_difference", PP(sprout::find_symmetric_difference(f, l, g_, h)), sym(0, 0));
	}
	// find + next* enumerate exactly the set operation
	V got, want; int guard = 0, lim = n + m + 2;
	{ got.clear(); want.clear(); std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(want), c);
		auto p = sprout::find_intersection(f, l, g_, h, c);
		for (guard = 0; p.first != l && guard < lim; ++guard) { got.push_back(*p.first); p = natural ? sprout::next_intersection(p.first, l, p.second, h) : sprout::next_intersection(p.first, l, p.second, h, c); }
		eq("next_intersection enumeration", got, want); }
	{ got.clear(); want.clear(); std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(want), c);
		auto p = sprout::find_difference(f, l, g_, h, c);
		for (guard = 0; p.first != l && guard < lim; ++guard) { got.push_back(*p.first); p = natural ? sprout::next_difference(p.first, l, p.second, h) : sprout::next_difference(p.first, l, p.second, h, c); }
		eq("next_difference enumeration", got, want); }
	auto cur = [&](typename std::decay<decltype(f)>::type x, typename std::decay<decltype(g_)>::type y) { return x == l ? *y : y == h ? *x : c(*y, *x) ? *y : *x; };
	{ got.clear(); want.clear(); std::set_symmetric_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(want), c);
		auto p = sprout::find_symmetric_difference(f, l, g_, h, c);
		for (guard = 0; (p.first != l || p.second != h) && guard < lim; ++guard) { got.push_back(cur(p.first, p.second)); p = natural ? sprout::next_symmetric_difference(p.first, l, p.second, h) : sprout::next_symmetric_difference(p.first, l, p.second, h, c); }
		eq("next_symmetric_difference enumeration", got, want); }
	{ got.clear(); want.clear(); std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(want), c);
		auto p = sprout::pair<decltype(f), decltype(g_)>(f, g_);
		for (guard = 0; (p.first != l || p.second != h) && guard < lim; ++guard) { got.push_back(cur(p.first, p.second)); p = natural ? sprout::next_union(p.first, l, p.second, h) : sprout::next_union(p.first, l, p.second, h, c); }
		eq("next_union enumeration", got, want); }
}
template<class T1, class T2> void merge_all() {
	int n = thorough() ? 6 : 5;
	std::vector<V> s, d, p; sequences_upto(n, 4, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) { s.push_back(v); d.push_back(V(v.rbegin(), v.rend())); } });
	for (auto& a : s) for (auto& c : s) merge2<T1, T2>(a, c, Less(), true);
	for (auto& a : d) for (auto& c : d) merge2<T1, T2>(a, c, Greater(), false);
	sequences_upto(4, 4, [&](V const& v) { if (std::is_sorted(v.begin(), v.end(), ParLess())) p.push_back(v); });
	for (auto& a : p) for (auto& c : p) merge2<T1, T2>(a, c, ParLess(), false);
	for (int n = 6; n <= (thorough() ? 60 : 34); ++n) {
		V a(n); for (int i = 0; i < n; ++i) a[i] = 2 * i;
		merge2<T1, T2>(a, a, Less(), true); merge2<T1, T2>(a, V(), Less(), true); merge2<T1, T2>(V(), a, Less(), true);
		for (int i = 0; i < n; ++i) for (int k = -1; k <= 1; ++k) {
			V r(a); if (k == 0) r.erase(r.begin() + i); else r[i] += k;
			merge2<T1, T2>(a, r, Less(), true); merge2<T1, T2>(r, a, Less(), true);
			V t(r.begin() + i, r.end()); merge2<T1, T2>(a, t, Less(), true); merge2<T1, T2>(t, a, Less(), true);
			V o(1, 2 * i + k); merge2<T1, T2>(a, o, Less(), true); merge2<T1, T2>(o, a, Less(), true);
			V z(n, 2 * i); merge2<T1, T2>(a, z, Less(), true); merge2<T1, T2>(z, a, Less(), true);
		}
	}
}
MC_SECTION(merge_ff) { merge_all<fwd, fwd>(); }
MC_SECTION(merge_rr) { merge_all<ra, ra>(); }
MC_SECTION(merge_rf) { merge_all<ra, fwd>(); }
MC_SECTION(merge_fr) { merge_all<fwd, ra>(); }
MC_SECTION(merge_pp) { merge_all<Ptr, Ptr>(); }
