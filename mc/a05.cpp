// A05: container-returning (fixed) and view-returning (fit) algorithms against the standard algorithms.
#include "mc.hpp"
#include "iters.hpp"
#include "preds.hpp"
#include "dests.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/tuple.hpp>
#include <sprout/functional.hpp>
#include <sprout/iterator.hpp>
#include <numeric>
using namespace mc;
typedef std::vector<int> V;

struct Plus10 { constexpr int operator()(int a) const { return a + 10; } };
struct Mix { constexpr int operator()(int a, int b) const { return a * 5 + b + 10; } };
struct Gen { int i; constexpr explicit Gen(int i_) : i(i_) {} sprout::tuple<int, Gen> operator()() const { return sprout::tuple<int, Gen>(i, Gen(i + 3)); } };
struct Unf { constexpr Unf() {} sprout::tuple<int, int> operator()(int s) const { return sprout::tuple<int, int>(s * 2, s + 1); } };
struct Rec0 { constexpr int operator()() const { return 7; } };
struct Rec1 { constexpr int operator()(int a) const { return a + 2; } };
struct Rec2 { constexpr int operator()(int a, int b) const { return a + b; } };
struct Rec3 { constexpr int operator()(int a, int b, int c) const { return a + 2 * b + 3 * c; } };

// ---- copying algorithms with one source
template<class Tag, bool Bidi, bool Ra> struct OneSource {
	Buf<int>* b; V v; uint64_t* n;
	template<class C> void operator()(Dest<C> const& d) {
		MC_STATE("source " + str(v) + " (" + tagname<Tag>::n() + ") result " + d.name);
		trace();
		auto f = b->cit<Tag>(0); auto l = b->cit<Tag>((int)v.size());
		BOTH(copy, v, f, l, d.c);
		for (int k = 0; k <= (int)v.size(); ++k) BOTH(copy_n, V(v.begin(), v.begin() + k), f, k, d.c);
		for (int k = 0; k < 3; ++k) {
			V w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), Is(k)); BOTH(copy_if, w, f, l, d.c, Is(k));
			w.clear(); std::remove_copy(v.begin(), v.end(), std::back_inserter(w), k); BOTH(remove_copy, w, f, l, d.c, k); BOTH(remove_copy_if, w, f, l, d.c, Is(k));
			w = V(v.begin(), std::find(v.begin(), v.end(), k)); BOTH(copy_until, w, f, l, d.c, Is(k));
			w = V(v.begin(), std::find_if_not(v.begin(), v.end(), Ge(k))); BOTH(copy_while, w, f, l, d.c, Ge(k));
			w = v; std::replace(w.begin(), w.end(), k, 9); BOTH(replace_copy, w, f, l, d.c, k, 9); BOTH(replace_copy_if, w, f, l, d.c, Is(k), 9);
		}
		{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w)); BOTH(unique_copy, w, f, l, d.c); }
		{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w), Par()); BOTH(unique_copy, w, f, l, d.c, Par()); }
		{ V w; for (int x : v) w.push_back(x + 10); BOTH(transform, w, f, l, d.c, Plus10()); }
		{ V w; for (int x : v) w.push_back(x * 5 + x + 10); BOTH(transform, w, f, l, f, d.c, Mix()); }
		{ V w; for (int x : v) w.push_back(x < 1 ? 1 : x > 1 ? 1 : x); BOTH(clamp_range_copy, w, f, l, d.c, 1, 1); }
		{ V w; for (int x : v) w.push_back(x > 1 ? 1 : x); BOTH(clamp_range_copy, w, f, l, d.c, 0, 1, Less()); }
		{ V w; for (int x : v) w.push_back(x < 1 ? 1 : x > 2 ? 2 : x); BOTH(clamp_range_copy, w, f, l, d.c, 2, 1, Greater()); }
		for (int k = 0; k <= (int)v.size(); ++k) { V w(v); std::rotate(w.begin(), w.begin() + k, w.end()); BOTH(rotate_copy, w, f, b->cit<Tag>(k), l, d.c); }
		for (int i = 0; i < (int)v.size(); ++i) for (int j = 0; j < (int)v.size(); ++j) { V w(v); std::swap(w[i], w[j]); BOTH(swap_element_copy, w, f, l, d.c, b->cit<Tag>(i), b->cit<Tag>(j)); }
		for (int k = 0; k < 3; ++k) part(f, l, d, Is(k));
		bidi(f, l, d, std::integral_constant<bool, Bidi>());
		okd("source untouched", b->unchanged(), [] { return std::string("source modified"); });
	}
	template<class I, class D, class P> void part(I f, I l, D const& d, P p) {
		// partition_copy promises no order: the written part is a partitioned permutation of the elements taken
		auto r = sprout::fixed::partition_copy(f, l, d.c, p);
		auto r2 = sprout::partition_copy(f, l, d.c, p);
		typedef decltype(r) R;
		V got = View<R>::in(r); int n = std::min<int>(d.size(), v.size());
		V w(got.begin() + d.lo, got.begin() + d.lo + n);
		V sorted(w); std::sort(sorted.begin(), sorted.end());
		bool okp = std::is_partitioned(w.begin(), w.end(), p) && expect(d, w) == got && View<R>::lo(r) == d.lo && View<R>::hi(r) == d.hi;
		V s2(v); std::sort(s2.begin(), s2.end());
		okp = okp && std::includes(s2.begin(), s2.end(), sorted.begin(), sorted.end());
		okd("fixed::partition_copy", okp, [&] { return "got " + str(got); });
		ok("partition_copy", View<R>::in(r2) == got);
		auto t = sprout::fit::partition_copy(f, l, d.c, p);
		int cnt = (int)std::count_if(w.begin(), w.end(), p);
		eq("fit::partition_copy", std::make_pair(std::make_pair(View<decltype(t)>::lo(t), View<decltype(t)>::hi(t)), View<decltype(t)>::in(t)), std::make_pair(std::make_pair(d.lo, d.lo + cnt), got));
	}
	template<class I, class D> void bidi(I, I, D const&, std::false_type) {}
	template<class I, class D> void bidi(I f, I l, D const& d, std::true_type) {
		{ V w(v.rbegin(), v.rend()); BOTH(reverse_copy, w, f, l, d.c); }
		chkb("fixed::copy_backward", sprout::fixed::copy_backward(f, l, d.c), d, v);
		chkb("copy_backward", sprout::copy_backward(f, l, d.c), d, v);
		chkfitb("fit::copy_backward", sprout::fit::copy_backward(f, l, d.c), d, v);
		for (int k = 0; k < 3; ++k) {
			V w(v); std::stable_partition(w.begin(), w.end(), Is(k));
			auto r = sprout::fixed::stable_partition_copy(f, l, d.c, Is(k));
			chk("fixed::stable_partition_copy", r, d, w);
			chk("stable_partition_copy", sprout::stable_partition_copy(f, l, d.c, Is(k)), d, w);
			auto t = sprout::fit::stable_partition_copy(f, l, d.c, Is(k));
			int cnt = std::min<int>(d.size(), std::count(v.begin(), v.end(), k));
			eq("fit::stable_partition_copy", std::make_pair(std::make_pair(View<decltype(t)>::lo(t), View<decltype(t)>::hi(t)), View<decltype(t)>::in(t)), std::make_pair(std::make_pair(d.lo, d.lo + cnt), expect(d, w)));
		}
	}
};
template<class Tag, bool Bidi, bool Ra> void one_source(int bits) {
	int nmax = thorough() ? 6 : 5;
	bound("source", "all sequences of length <=" + std::to_string(nmax) + " over 3 values; all destination kinds and windows");
	sequences_upto(nmax, 3, [&](V const& v) {
		Buf<int> b(v, -9);
		OneSource<Tag, Bidi, Ra> o = {&b, v, 0};
		for_dests(bits, o);
	});
}
#if PART == 1
MC_SECTION(copy_pointer_array) { one_source<Ptr, true, true>(1); }
#endif
#if PART == 2
MC_SECTION(copy_pointer_window) { one_source<Ptr, true, true>(6); }
#endif
#if PART == 3
MC_SECTION(copy_ra_array) { one_source<ra, true, true>(1); }
#endif
#if PART == 4
MC_SECTION(copy_ra_window) { one_source<ra, true, true>(6); }
#endif
#if PART == 5
MC_SECTION(copy_bidi_array) { one_source<bidi, true, false>(1); }
#endif
#if PART == 6
MC_SECTION(copy_bidi_window) { one_source<bidi, true, false>(6); }
#endif
#if PART == 7
MC_SECTION(copy_forward_array) { one_source<fwd, false, false>(1); }
#endif
#if PART == 8
MC_SECTION(copy_forward_window) { one_source<fwd, false, false>(6); }
#endif
// ---- two sorted sources
template<class Tag> struct TwoSource {
	Buf<int>* a; Buf<int>* b; V v, w; bool greater;
	template<class C> void operator()(Dest<C> const& d) {
		MC_STATE("sources " + str(v) + " and " + str(w) + " (" + tagname<Tag>::n() + ") result " + d.name + (greater ? " descending" : ""));
		trace();
		if (!greater) run(d); else run(d, Greater());
	}
	template<class D, class... Cmp> void run(D const& d, Cmp... c) {
		auto f1 = a->cit<Tag>(0); auto l1 = a->cit<Tag>((int)v.size()); auto f2 = b->cit<Tag>(0); auto l2 = b->cit<Tag>((int)w.size());
		V x;
		std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); BOTH(merge, x, f1, l1, f2, l2, d.c, c...); x.clear();
		std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); BOTH(set_union, x, f1, l1, f2, l2, d.c, c...); x.clear();
		std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); BOTH(set_intersection, x, f1, l1, f2, l2, d.c, c...); x.clear();
		std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); BOTH(set_difference, x, f1, l1, f2, l2, d.c, c...); x.clear();
		std::set_symmetric_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); BOTH(set_symmetric_difference, x, f1, l1, f2, l2, d.c, c...);
	}
};
template<class Tag> void two_source(int bits) {
	int nmax = thorough() ? 5 : 4;
	bound("sources", "all pairs of sorted sequences of length <=" + std::to_string(nmax) + " over 3 values, ascending and descending");
	std::vector<V> s;
	sequences_upto(nmax, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) s.push_back(v); });
	for (V const& v0 : s) for (V const& w0 : s) for (int g = 0; g < 2; ++g) {
		V v(v0), w(w0); if (g) { std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end()); }
		Buf<int> a(v, -9), b(w, -9);
		TwoSource<Tag> o = {&a, &b, v, w, g == 1};
		for_dests(bits, o);
		ok("source untouched", a.unchanged() && b.unchanged());
	}
}
#if PART == 9
MC_SECTION(merge_pointer) { two_source<Ptr>(1); }
#endif
#if PART == 10
MC_SECTION(merge_ra) { two_source<ra>(3); }
#endif
#if PART == 11
MC_SECTION(merge_forward) { two_source<fwd>(3); }
#endif
#if PART == 9
MC_SECTION(merge_string) { two_source<Ptr>(4); }
#endif

// ---- filling and generating
struct Fill {
	template<class C> void operator()(Dest<C> const& d) {
		MC_STATE("result " + d.name);
		trace();
		int n = d.size();
		BOTH(fill, V(n, 7), d.c, 7);
		BOTH(generate, gen(n, 1), d.c, Gen(1));
		BOTH(unfold, unf(n, 2), d.c, Unf(), 2);
		BOTH(recurrence, rec(n, V(), 0), d.c, Rec0());
		BOTH(recurrence, rec(n, V{1}, 1), d.c, Rec1(), 1);
		BOTH(recurrence, (rec(n, V{1, 2}, 2)), d.c, Rec2(), 1, 2);
		BOTH(recurrence, (rec(n, V{1, 2, 3}, 3)), d.c, Rec3(), 1, 2, 3);
		for (int k = 0; k <= n; ++k) {
			BOTH(fill_n, V(k, 7), d.c, k, 7);
			BOTH(generate_n, gen(k, 1), d.c, k, Gen(1));
			BOTH(unfold_n, unf(k, 2), d.c, k, Unf(), 2);
			BOTH(recurrence_n, rec(k, V(), 0), d.c, k, Rec0());
			BOTH(recurrence_n, rec(k, V{1}, 1), d.c, k, Rec1(), 1);
			BOTH(recurrence_n, (rec(k, V{1, 2}, 2)), d.c, k, Rec2(), 1, 2);
			BOTH(recurrence_n, (rec(k, V{1, 2, 3}, 3)), d.c, k, Rec3(), 1, 2, 3);
		}
	}
	static V gen(int n, int s) { V v; for (int i = 0; i < n; ++i) v.push_back(s + 3 * i); return v; }
	static V unf(int n, int s) { V v; for (int i = 0; i < n; ++i) v.push_back((s + i) * 2); return v; }
	static V rec(int n, V v, int k) {
		while ((int)v.size() < n) { size_t z = v.size(); v.push_back(k == 0 ? 7 : k == 1 ? v[z - 1] + 2 : k == 2 ? v[z - 2] + v[z - 1] : v[z - 3] + 2 * v[z - 2] + 3 * v[z - 1]); }
		v.resize(n); return v;
	}
};
#if PART == 12
MC_SECTION(generate) { Fill f; for_dests(7, f); }
#endif
// ---- whole-container algorithms
// view: how far the returned window reaches (the whole window unless said otherwise)
template<class D, class R> void chkset(const char* op, R const& r, D const& d, std::function<bool(V const&)> p, int view = -1) {
	V got = View<R>::in(r);
	bool g = View<R>::lo(r) == d.lo && View<R>::hi(r) == (view < 0 ? d.hi : d.lo + view) && got.size() == d.in.size();
	V w; if (g) { w = V(got.begin() + d.lo, got.begin() + d.hi); g = expect(d, w) == got; }
	V a(d.in.begin() + d.lo, d.in.begin() + d.hi), b(w); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
	okd(op, g && a == b && p(w), [&] { return "got " + str(got); });
}
#define BOTHSET(f, cond, ...) do { auto p_ = [&](V const& w) -> bool { return cond; }; chkset("fixed::" #f, sprout::fixed::f(__VA_ARGS__), d, p_); chkset("fit::" #f, sprout::fit::f(__VA_ARGS__), d, p_); } while (0)
#define BOTHF(f, want, ...) do { V w_ = (want); chk("fixed::" #f, sprout::fixed::f(__VA_ARGS__), d, w_); chk(#f, sprout::f(__VA_ARGS__), d, w_); chkfit("fit::" #f, sprout::fit::f(__VA_ARGS__), d, w_); } while (0)
template<class C> void whole(Dest<C> const& d) {
	V v(d.in.begin() + d.lo, d.in.begin() + d.hi);
	MC_STATE("container " + d.name + " holding " + str(d.in));
	trace();
	auto at = [&](int i) { return sprout::next(sprout::begin(static_cast<C const&>(d.c)), i); };
	int n = (int)v.size();
	{ V w(v); std::sort(w.begin(), w.end()); BOTHF(sort, w, d.c); BOTHF(stable_sort, w, d.c); std::reverse(w.begin(), w.end()); BOTHF(sort, w, d.c, Greater()); BOTHF(stable_sort, w, d.c, Greater()); }
	{ V w(v); std::stable_sort(w.begin(), w.end(), ParLess()); BOTHF(stable_sort, w, d.c, ParLess()); }
	BOTHSET(make_heap, std::is_heap(w.begin(), w.end()), d.c);
	BOTHSET(make_heap, std::is_heap(w.begin(), w.end(), Greater()), d.c, Greater());
	if (std::is_heap(v.begin(), v.end()) && n) {
		auto p = [&](V const& w) { return std::is_heap(w.begin(), w.end() - 1) && w.back() == v.front(); };
		chkset("fixed::pop_heap", sprout::fixed::pop_heap(d.c), d, p); chkset("fit::pop_heap", sprout::fit::pop_heap(d.c), d, p, n - 1);
		V s(v); std::sort(s.begin(), s.end()); BOTHF(sort_heap, s, d.c);
	}
	if (std::is_heap(v.begin(), v.end(), Greater()) && n) {
		auto p = [&](V const& w) { return std::is_heap(w.begin(), w.end() - 1, Greater()) && w.back() == v.front(); };
		chkset("fixed::pop_heap", sprout::fixed::pop_heap(d.c, Greater()), d, p); chkset("fit::pop_heap", sprout::fit::pop_heap(d.c, Greater()), d, p, n - 1);
		V s(v); std::sort(s.begin(), s.end(), Greater()); BOTHF(sort_heap, s, d.c, Greater());
	}
	if (n && std::is_heap(v.begin(), v.end() - 1)) BOTHSET(push_heap, std::is_heap(w.begin(), w.end()), d.c);
	if (n && std::is_heap(v.begin(), v.end() - 1, Greater())) BOTHSET(push_heap, std::is_heap(w.begin(), w.end(), Greater()), d.c, Greater());
	V sorted(v); std::sort(sorted.begin(), sorted.end());
	for (int k = 0; k <= n; ++k) {
		{
			V s(sorted.begin(), sorted.begin() + k);
			auto p = [&](V const& w) { return std::equal(s.begin(), s.end(), w.begin()); };
			chkset("fixed::partial_sort", sprout::fixed::partial_sort(d.c, at(k)), d, p);
			auto t = sprout::fit::partial_sort(d.c, at(k)); V in = View<decltype(t)>::in(t);
			chkset("fixed::partial_sort", sprout::fixed::partial_sort(d.c, at(k), Less()), d, p);
			chkset("fit::partial_sort", sprout::fit::partial_sort(d.c, at(k), Less()), d, p, k);
			{ V g(v); std::sort(g.begin(), g.end(), Greater()); auto u = sprout::fit::partial_sort(d.c, at(k), Greater()); eq("fit::partial_sort head", V(u.begin(), u.end()), V(g.begin(), g.begin() + k)); }
			eq("fit::partial_sort size", std::make_pair(View<decltype(t)>::lo(t), View<decltype(t)>::hi(t)), std::make_pair(d.lo, d.lo + k));
			eq("fit::partial_sort head", V(t.begin(), t.end()), s);
			auto h = [&](V const& w) { return std::is_heap(w.begin(), w.begin() + k, Less()) && (k == 0 || k == n || w[0] <= *std::min_element(w.begin() + k, w.end())); };
			chkset("fixed::make_partial_heap", sprout::fixed::make_partial_heap(d.c, at(k)), d, h);
			chkset("fixed::make_partial_heap", sprout::fixed::make_partial_heap(d.c, at(k), Less()), d, h);
			chkset("fit::make_partial_heap", sprout::fit::make_partial_heap(d.c, at(k), Less()), d, h, k);
			chkset("fit::make_partial_heap", sprout::fit::make_partial_heap(d.c, at(k)), d, h, k);
		}
		if (k < n) {
			auto p = [&](V const& w) { for (int i = 0; i < n; ++i) if (i < k ? w[i] > w[k] : w[i] < w[k]) return false; return w[k] == sorted[k]; };
			chkset("fixed::nth_element", sprout::fixed::nth_element(d.c, at(k)), d, p);
			chkset("fixed::nth_element", sprout::fixed::nth_element(d.c, at(k), Less()), d, p);
			chkset("fit::nth_element", sprout::fit::nth_element(d.c, at(k)), d, p, k + 1);
			chkset("fit::nth_element", sprout::fit::nth_element(d.c, at(k), Less()), d, p, k + 1);
		}
		if (std::is_sorted(v.begin(), v.begin() + k) && std::is_sorted(v.begin() + k, v.end())) { BOTHF(inplace_merge, sorted, d.c, at(k)); BOTHF(inplace_merge, sorted, d.c, at(k), Less()); }
		if (std::is_sorted(v.begin(), v.begin() + k, ParLess()) && std::is_sorted(v.begin() + k, v.end(), ParLess())) { V w(v); std::inplace_merge(w.begin(), w.begin() + k, w.end(), ParLess()); BOTHF(inplace_merge, w, d.c, at(k), ParLess()); }
		{ V w(v); std::rotate(w.begin(), w.begin() + k, w.end()); BOTHF(rotate, w, d.c, at(k)); }
	}
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { V w(v); std::swap(w[i], w[j]); BOTHF(swap_element, w, d.c, at(i), at(j)); }
	{ V w(v.rbegin(), v.rend()); BOTHF(reverse, w, d.c); }
	for (int k = 0; k < 3; ++k) {
		V w; std::remove_copy(v.begin(), v.end(), std::back_inserter(w), k); BOTHF(remove, w, d.c, k); BOTHF(remove_if, w, d.c, Is(k));
		w = v; std::replace(w.begin(), w.end(), k, 9); BOTHF(replace, w, d.c, k, 9); BOTHF(replace_if, w, d.c, Is(k), 9);
		w = v; auto m = std::stable_partition(w.begin(), w.end(), Is(k)) - w.begin();
		chk("fixed::stable_partition", sprout::fixed::stable_partition(d.c, Is(k)), d, w);
		auto t = sprout::fit::stable_partition(d.c, Is(k));
		eq("fit::stable_partition", std::make_pair(std::make_pair(View<decltype(t)>::lo(t), View<decltype(t)>::hi(t)), View<decltype(t)>::in(t)), std::make_pair(std::make_pair(d.lo, d.lo + (int)m), expect(d, w)));
		chkset("fixed::partition", sprout::fixed::partition(d.c, Is(k)), d, [&](V const& x) { return std::is_partitioned(x.begin(), x.end(), Is(k)); });
		auto u = sprout::fit::partition(d.c, Is(k));
		eq("fit::partition", V(u.begin(), u.end()), V(m, k));
	}
	{ V w(v); w.erase(std::unique(w.begin(), w.end()), w.end()); BOTHF(unique, w, d.c); }
	{ V w(v); w.erase(std::unique(w.begin(), w.end(), Par()), w.end()); BOTHF(unique, w, d.c, Par()); }
	{ V w; for (int x : v) w.push_back(1); BOTHF(clamp_range, w, d.c, 1, 1); }
	{ V w; for (int x : v) w.push_back(x > 1 ? 1 : x); BOTHF(clamp_range, w, d.c, 0, 1, Less()); }
	{ V w; for (int x : v) w.push_back(x < 1 ? 1 : x > 2 ? 2 : x); BOTHF(clamp_range, w, d.c, 2, 1, Greater()); }
	{
		V w(v); bool b = std::next_permutation(w.begin(), w.end());
		auto r = sprout::fixed::next_permutation(d.c); chk("fixed::next_permutation", r.first, d, w); eq("fixed::next_permutation flag", r.second, b);
		auto t = sprout::fit::next_permutation(d.c); chkfit("fit::next_permutation", t.first, d, w); eq("fit::next_permutation flag", t.second, b);
		w = v; b = std::prev_permutation(w.begin(), w.end());
		auto q = sprout::fixed::prev_permutation(d.c); chk("fixed::prev_permutation", q.first, d, w); eq("fixed::prev_permutation flag", q.second, b);
		auto u = sprout::fit::prev_permutation(d.c); chkfit("fit::prev_permutation", u.first, d, w); eq("fit::prev_permutation flag", u.second, b);
		w = v; b = std::next_permutation(w.begin(), w.end(), Greater());
		auto u2 = sprout::fit::next_permutation(d.c, Greater()); chkfit("fit::next_permutation", u2.first, d, w); eq("fit::next_permutation flag", u2.second, b);
		auto r2 = sprout::fixed::next_permutation(d.c, Greater()); chk("fixed::next_permutation", r2.first, d, w); eq("fixed::next_permutation flag", r2.second, b);
		w = v; b = std::prev_permutation(w.begin(), w.end(), Greater());
		auto u3 = sprout::fit::prev_permutation(d.c, Greater()); chkfit("fit::prev_permutation", u3.first, d, w); eq("fit::prev_permutation flag", u3.second, b);
		auto r3 = sprout::fixed::prev_permutation(d.c, Greater()); chk("fixed::prev_permutation", r3.first, d, w); eq("fixed::prev_permutation flag", r3.second, b);
	}
	eq("argument untouched", View<C>::in(d.c), d.in);
}
template<int N> void whole_arrays(int k) {
	sequences(N, k, [&](V const& v) { sprout::array<int, N> a; for (int i = 0; i < N; ++i) a[i] = v[i]; whole(Dest<sprout::array<int, N> >(a, "array<" + std::to_string(N) + ">")); });
}
#if PART == 13
MC_SECTION(whole_small) { whole(Dest<sprout::array<int, 0> >(sprout::array<int, 0>(), "array<0>")); whole_arrays<1>(4); whole_arrays<2>(4); whole_arrays<3>(4); whole_arrays<4>(4); }
#endif
#if PART == 14
MC_SECTION(whole_5) { whole_arrays<5>(3); }
#endif
#if PART == 15
MC_SECTION(whole_6) { whole_arrays<6>(3); }
#endif
#if PART == 16
MC_SECTION(whole_7) { if (thorough()) whole_arrays<7>(3); else whole_arrays<7>(2); }
#endif
#if PART == 15
MC_SECTION(whole_perm) { // all permutations of distinct values
	V p = {0, 1, 2, 3, 4, 5}; do { sprout::array<int, 6> a; std::copy(p.begin(), p.end(), a.begin()); whole(Dest<sprout::array<int, 6> >(a, "array<6>")); } while (std::next_permutation(p.begin(), p.end()));
}
#endif
#if PART == 17
MC_SECTION(whole_window) {
	typedef sprout::array<int, 5> A;
	sequences(5, 3, [&](V const& v) { A a; for (int i = 0; i < 5; ++i) a[i] = v[i];
		for (int l = 0; l <= 5; ++l) for (int h = l; h <= 5; ++h) whole(Dest<sprout::sub_array<A> >(sprout::sub_array<A>(a, l, h), "sub_array<5>[" + std::to_string(l) + "," + std::to_string(h) + ")")); });
}
#endif

// ---- containers whose length is only known at run time, overwritten in place or through an insert iterator
#if PART >= 18
struct At { V in; int lo, hi; std::string name; int size() const { return hi - lo; } };
template<class C> struct Runtime : At { C c; bool insert; int pos;
	Runtime(C const& x, V const& v, bool ins, int p, std::string const& n) : c(x), insert(ins), pos(p) { in = v; lo = 0; hi = (int)v.size(); name = n; }
};
template<class C> V wanted(Runtime<C> const& d, V const& w, bool fit) {
	V e(d.in);
	if (d.insert) { e.insert(e.begin() + d.pos, w.begin(), w.end()); return e; }
	int n = std::min<int>(d.size(), w.size());
	std::copy(w.begin(), w.begin() + n, e.begin());
	if (fit) e.resize(n);
	return e;
}
template<class C, class R> void chk(const char* op, R const& r, Runtime<C> const& d, V const& w) { eq(op, V(sprout::begin(r), sprout::end(r)), wanted(d, w, false)); }
template<class C, class R> void chkfit(const char* op, R const& r, Runtime<C> const& d, V const& w) { eq(op, V(sprout::begin(r), sprout::end(r)), wanted(d, w, true)); }
template<class F> void for_runtime(F& f) {
	for (int n = 0; n <= 5; n = n < 2 ? n + 1 : n + 3) {
		V c; for (int i = 0; i < n; ++i) c.push_back(50 + i);
		V const& cc = c; std::string s = "vector(" + std::to_string(n) + ")";
		f(Runtime<V>(c, c, false, 0, s));
		if (n > 2) continue; // insert iterators
		f(Runtime<decltype(sprout::front_inserter(cc))>(sprout::front_inserter(cc), c, true, 0, "front_inserter(" + s + ")"));
		f(Runtime<decltype(sprout::back_inserter(cc))>(sprout::back_inserter(cc), c, true, n, "back_inserter(" + s + ")"));
		for (int p = 0; p <= n; ++p) f(Runtime<decltype(sprout::inserter(cc, cc.begin()))>(sprout::inserter(cc, cc.begin() + p), c, true, p, "inserter(" + s + ", " + std::to_string(p) + ")"));
	}
}
template<class Tag, bool Bidi> struct RtOne {
	Buf<int>* b; V v;
	template<class C> void operator()(Runtime<C> const& d) {
		MC_STATE("source " + str(v) + " (" + tagname<Tag>::n() + ") result " + d.name);
		trace();
		auto f = b->cit<Tag>(0); auto l = b->cit<Tag>((int)v.size());
		BOTH(copy, v, f, l, d.c);
		for (int k = 0; k <= (int)v.size(); ++k) { BOTH(copy_n, V(v.begin(), v.begin() + k), f, k, d.c); chk("fixed::fill_n", sprout::fixed::fill_n(d.c, k, 7), d, V(k, 7)); }
		for (int k = 0; k < 3; ++k) {
			V w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), Is(k)); BOTH(copy_if, w, f, l, d.c, Is(k));
			w.clear(); std::remove_copy(v.begin(), v.end(), std::back_inserter(w), k); BOTH(remove_copy, w, f, l, d.c, k); BOTH(remove_copy_if, w, f, l, d.c, Is(k));
			w = V(v.begin(), std::find(v.begin(), v.end(), k)); BOTH(copy_until, w, f, l, d.c, Is(k));
			w = V(v.begin(), std::find_if_not(v.begin(), v.end(), Ge(k))); BOTH(copy_while, w, f, l, d.c, Ge(k));
			w = v; std::replace(w.begin(), w.end(), k, 9); BOTH(replace_copy, w, f, l, d.c, k, 9); BOTH(replace_copy_if, w, f, l, d.c, Is(k), 9);
		}
		{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w)); BOTH(unique_copy, w, f, l, d.c); }
		{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w), Par()); BOTH(unique_copy, w, f, l, d.c, Par()); }
		{ V w; for (int x : v) w.push_back(x + 10); BOTH(transform, w, f, l, d.c, Plus10()); }
		{ V w; for (int x : v) w.push_back(x * 5 + x + 10); BOTH(transform, w, f, l, f, d.c, Mix()); }
		{ V w; for (int x : v) w.push_back(x < 1 ? 1 : x > 1 ? 1 : x); BOTH(clamp_range_copy, w, f, l, d.c, 1, 1); }
		for (int k = 0; k <= (int)v.size(); ++k) { V w(v); std::rotate(w.begin(), w.begin() + k, w.end()); BOTH(rotate_copy, w, f, b->cit<Tag>(k), l, d.c); }
		rev(f, l, d, std::integral_constant<bool, Bidi>());
		okd("source untouched", b->unchanged(), [] { return std::string("source modified"); });
	}
	template<class I, class D> void rev(I, I, D const&, std::false_type) {}
	template<class I, class D> void rev(I f, I l, D const& d, std::true_type) { V w(v.rbegin(), v.rend()); BOTH(reverse_copy, w, f, l, d.c); }
};
template<class Tag> struct RtTwo {
	Buf<int>* a; Buf<int>* b; V v, w; bool greater;
	template<class C> void operator()(Runtime<C> const& d) {
		MC_STATE("sources " + str(v) + " and " + str(w) + " (" + tagname<Tag>::n() + ") result " + d.name + (greater ? " descending" : ""));
		trace();
		TwoSource<Tag> o = {a, b, v, w, greater};
		if (!greater) o.run(d); else o.run(d, Greater());
	}
};
template<class Tag, bool Bidi> void runtime_one() {
	int nmax = thorough() ? 5 : 4;
	bound("source", "all sequences of length <=" + std::to_string(nmax) + " over 3 values; vectors overwritten in place and through front, back and every positional insert iterator");
	sequences_upto(nmax, 3, [&](V const& v) { Buf<int> b(v, -9); RtOne<Tag, Bidi> o = {&b, v}; for_runtime(o); });
}
template<class Tag> void runtime_two() {
	int nmax = thorough() ? 4 : 3;
	std::vector<V> s;
	sequences_upto(nmax, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) s.push_back(v); });
	for (V const& v0 : s) for (V const& w0 : s) for (int g = 0; g < 2; ++g) {
		V v(v0), w(w0); if (g) { std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end()); }
		Buf<int> a(v, -9), b(w, -9);
		RtTwo<Tag> o = {&a, &b, v, w, g == 1};
		for_runtime(o);
		ok("source untouched", a.unchanged() && b.unchanged());
	}
}
#if PART == 18
MC_SECTION(runtime_pointer) { runtime_one<Ptr, true>(); runtime_two<Ptr>(); }
#endif
#if PART == 19
MC_SECTION(runtime_forward) { runtime_one<fwd, false>(); runtime_two<fwd>(); }
#endif
#endif

// ---- result type named explicitly: sprout::f<Result>(arguments without a result) overwrites a value-initialised container
#if PART == 20
struct Named { std::string name; };
template<class R> V nwant(V const& w) { V e(sprout::container_traits<R>::static_size, 0); for (std::size_t i = 0; i < e.size() && i < w.size(); ++i) e[i] = w[i]; return e; }
template<class R> V nwantb(V const& w) { V e(sprout::container_traits<R>::static_size, 0); int n = (int)e.size(), m = (int)w.size(); for (int i = 0; i < n && i < m; ++i) e[n - 1 - i] = w[m - 1 - i]; return e; }
template<class R> V got(R const& r) { return V(r.begin(), r.end()); }
#define NAMED(f, want, ...) do { V w_ = nwant<R>(want); eq("fixed::" #f "<Result>", got(sprout::fixed::f<R>(__VA_ARGS__)), w_); eq(#f "<Result>", got(sprout::f<R>(__VA_ARGS__)), w_); } while (0)
template<class R, class Tag, bool Bidi> void named_one(Buf<int>& b, V const& v) {
	MC_STATE("source " + str(v) + " (" + tagname<Tag>::n() + ") result type array<" + std::to_string((int)sprout::container_traits<R>::static_size) + ">");
	trace();
	auto f = b.cit<Tag>(0); auto l = b.cit<Tag>((int)v.size());
	NAMED(copy, v, f, l);
	for (int k = 0; k <= (int)v.size(); ++k) NAMED(copy_n, V(v.begin(), v.begin() + k), f, k);
	for (int k = 0; k < 3; ++k) {
		V w; std::copy_if(v.begin(), v.end(), std::back_inserter(w), Is(k)); NAMED(copy_if, w, f, l, Is(k));
		w.clear(); std::remove_copy(v.begin(), v.end(), std::back_inserter(w), k); NAMED(remove_copy, w, f, l, k); NAMED(remove_copy_if, w, f, l, Is(k));
		w = V(v.begin(), std::find(v.begin(), v.end(), k)); NAMED(copy_until, w, f, l, Is(k));
		w = V(v.begin(), std::find_if_not(v.begin(), v.end(), Ge(k))); NAMED(copy_while, w, f, l, Ge(k));
		w = v; std::replace(w.begin(), w.end(), k, 9); NAMED(replace_copy, w, f, l, k, 9); NAMED(replace_copy_if, w, f, l, Is(k), 9);
	}
	{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w)); NAMED(unique_copy, w, f, l); }
	{ V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w), Par()); NAMED(unique_copy, w, f, l, Par()); }
	{ V w; for (int x : v) w.push_back(x + 10); NAMED(transform, w, f, l, Plus10()); }
	{ V w; for (int x : v) w.push_back(x * 5 + x + 10); NAMED(transform, w, f, l, f, Mix()); }
	{ V w; for (int x : v) w.push_back(1); NAMED(clamp_range_copy, w, f, l, 1, 1); }
	{ V w; for (int x : v) w.push_back(x < 1 ? 1 : x > 2 ? 2 : x); NAMED(clamp_range_copy, w, f, l, 2, 1, Greater()); }
	for (int k = 0; k <= (int)v.size(); ++k) { V w(v); std::rotate(w.begin(), w.begin() + k, w.end()); NAMED(rotate_copy, w, f, b.cit<Tag>(k), l); }
	for (int i = 0; i < (int)v.size(); ++i) for (int j = 0; j < (int)v.size(); ++j) { V w(v); std::swap(w[i], w[j]); NAMED(swap_element_copy, w, f, l, b.cit<Tag>(i), b.cit<Tag>(j)); }
	for (int k = 0; k < 3; ++k) {
		V w(v); std::stable_partition(w.begin(), w.end(), Is(k)); NAMED(stable_partition_copy, w, f, l, Is(k));
	}
	if constexpr (Bidi) {
		V w(v.rbegin(), v.rend()); NAMED(reverse_copy, w, f, l);
		V e = nwantb<R>(v);
		eq("fixed::copy_backward<Result>", got(sprout::fixed::copy_backward<R>(f, l)), e);
		eq("copy_backward<Result>", got(sprout::copy_backward<R>(f, l)), e);
	}
	okd("source untouched", b.unchanged(), [] { return std::string("source modified"); });
}
template<class R, class... Cmp> void named_two(Buf<int>& a, Buf<int>& b, V const& v, V const& w, Cmp... c) {
	MC_STATE("sources " + str(v) + " and " + str(w) + " result type array<" + std::to_string((int)sprout::container_traits<R>::static_size) + ">" + (sizeof...(c) ? " descending" : ""));
	trace();
	auto f1 = a.cit<Ptr>(0); auto l1 = a.cit<Ptr>((int)v.size()); auto f2 = b.cit<Ptr>(0); auto l2 = b.cit<Ptr>((int)w.size());
	V x;
	std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); NAMED(merge, x, f1, l1, f2, l2, c...); x.clear();
	std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); NAMED(set_union, x, f1, l1, f2, l2, c...); x.clear();
	std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); NAMED(set_intersection, x, f1, l1, f2, l2, c...); x.clear();
	std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); NAMED(set_difference, x, f1, l1, f2, l2, c...); x.clear();
	std::set_symmetric_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(x), c...); NAMED(set_symmetric_difference, x, f1, l1, f2, l2, c...);
}
template<class R> void named_fill() {
	int n = (int)sprout::container_traits<R>::static_size;
	MC_STATE("result type array<" + std::to_string(n) + ">");
	trace();
	NAMED(fill, V(n, 7), 7);
	NAMED(generate, Fill::gen(n, 1), Gen(1));
	NAMED(unfold, Fill::unf(n, 2), Unf(), 2);
	NAMED(recurrence, Fill::rec(n, V(), 0), Rec0());
	NAMED(recurrence, Fill::rec(n, V{1}, 1), Rec1(), 1);
	NAMED(recurrence, (Fill::rec(n, V{1, 2}, 2)), Rec2(), 1, 2);
	for (int k = 0; k <= n; ++k) {
		NAMED(fill_n, V(k, 7), k, 7);
		NAMED(generate_n, Fill::gen(k, 1), k, Gen(1));
		NAMED(unfold_n, Fill::unf(k, 2), k, Unf(), 2);
		NAMED(recurrence_n, Fill::rec(k, V(), 0), k, Rec0());
		NAMED(recurrence_n, Fill::rec(k, V{1}, 1), k, Rec1(), 1);
		NAMED(recurrence_n, (Fill::rec(k, V{1, 2}, 2)), k, Rec2(), 1, 2);
	}
}
#define NAMED_TYPES(F) F(0) F(1) F(3) F(5)
MC_SECTION(named_result) {
	int nmax = thorough() ? 6 : 4;
	bound("named result", "all sequences of length <=" + std::to_string(nmax) + " over 3 values, result types array<0, 1, 3, 5>, pointer and forward sources");
	sequences_upto(nmax, 3, [&](V const& v) {
		Buf<int> b(v, -9);
#define F(N) named_one<sprout::array<int, N>, Ptr, true>(b, v); named_one<sprout::array<int, N>, fwd, false>(b, v);
		NAMED_TYPES(F)
#undef F
	});
	std::vector<V> s;
	sequences_upto(thorough() ? 4 : 3, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) s.push_back(v); });
	for (V const& v0 : s) for (V const& w0 : s) {
		V v(v0), w(w0);
		Buf<int> a(v, -9), b(w, -9);
		std::reverse(v.begin(), v.end()); std::reverse(w.begin(), w.end());
		Buf<int> ra_(v, -9), rb(w, -9);
#define F(N) named_two<sprout::array<int, N> >(a, b, v0, w0); named_two<sprout::array<int, N> >(ra_, rb, v, w, Greater());
		NAMED_TYPES(F)
#undef F
		ok("source untouched", a.unchanged() && b.unchanged() && ra_.unchanged() && rb.unchanged());
	}
#define F(N) named_fill<sprout::array<int, N> >();
	NAMED_TYPES(F)
#undef F
	// a run-time container filled as a whole
	for (int n = 0; n <= 4; ++n) { V c; for (int i = 0; i < n; ++i) c.push_back(50 + i); MC_STATE("vector of length " + std::to_string(n)); trace();
		eq("fixed::fill", sprout::fixed::fill(c, 7), V(n, 7)); eq("fill", sprout::fill(c, 7), V(n, 7)); }
}
#endif
