// A08: randomised algorithms under a random source whose answers are all enumerated.
#include "mc.hpp"
#include "iters.hpp"
#include "preds.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/random.hpp>
#include <map>
using namespace mc;
typedef std::vector<int> V;
struct TooLong {};
template<class I> static sprout::range::range_container<I> mkr(I a, I b) { return sprout::range::range_container<I>(a, b); }
// The k-th answer is a function of k and of the explored choice path, so copies of the source replay the same answers.
struct Tape { Choices* c; std::vector<unsigned> a; unsigned m; unsigned limit; unsigned at(unsigned k) { if (k >= limit) throw TooLong(); while (a.size() <= k) a.push_back((*c)((int)m)); return a[k]; } };
struct Src {
	typedef unsigned result_type;
	Tape* t; unsigned k;
	Src() : t(0), k(0) {}
	explicit Src(Tape& t_) : t(&t_), k(0) {}
	Src(Tape* t_, unsigned k_) : t(t_), k(k_) {}
	result_type min() const { return 0; }
	result_type max() const { return t->m - 1; }
	result_type operator()() { return t->at(k++); }
	sprout::random::random_result<Src> operator()() const { return sprout::random::random_result<Src>(t->at(k), Src(t, k + 1)); }
	bool operator==(Src const& o) const { return t == o.t && k == o.k; }
};
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
static std::map<V, long> hist; static long cut;
// run f over every answer path; paths longer than limit are cut off (counted)
template<class F> void paths(unsigned m, unsigned limit, F f) {
	hist.clear(); cut = 0;
	explore([&](Choices& c) {
		Tape t; t.c = &c; t.m = m; t.limit = limit;
		trace();
		try { f(t); } catch (TooLong&) { ++cut; }
	});
}
static V iotav(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(i * 3 + 1); return v; }
static long fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }

// ---- in place
MC_SECTION(shuffle_inplace) {
	for (int n = 0; n <= 4; ++n) {
		V v = iotav(n);
		MC_STATE("shuffle of " + std::to_string(n) + ", 12-valued source");
		paths(12, 8, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); sprout::shuffle(b.it<ra>(0), b.it<ra>(n), s); ok("shuffle permutes", sorted(b.get()) == v && b.guards()); eq("shuffle draws", (int)s.k, n > 1 ? n - 1 : 0); hist[b.get()]++; });
		eq("shuffle reaches every permutation", (long)hist.size(), fact(n));
		bool uni = true; for (auto& h : hist) if (h.second != hist.begin()->second) uni = false;
		ok("shuffle is uniform over all answers", uni && cut == 0);
		paths(12, 8, [&](Tape& t) { Buf<int> b(v, -9); sprout::range::shuffle(mkr(b.it<ra>(0), b.it<ra>(n)), Src(t)); ok("range::shuffle permutes", sorted(b.get()) == v && b.guards()); hist[b.get()]++; });
		eq("range::shuffle reaches every permutation", (long)hist.size(), fact(n));
	}
	bound("shuffle", "every answer path of a 12-valued source for sizes 0..4; every path of at most 12 draws of a 2-valued and a 3-valued source");
	for (unsigned m = 2; m <= 3; ++m) for (int n = 2; n <= 4; ++n) {
		V v = iotav(n); MC_STATE("shuffle of " + std::to_string(n) + ", " + std::to_string(m) + "-valued source");
		paths(m, m == 2 ? 12 : 8, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); sprout::shuffle(b.it<ra>(0), b.it<ra>(n), s); ok("shuffle permutes", sorted(b.get()) == v && b.guards()); hist[b.get()]++; });
		eq("shuffle reaches every permutation", (long)hist.size(), fact(n));
	}
	if (thorough()) { V v = iotav(5); MC_STATE("shuffle of 5, 60-valued source"); paths(60, 8, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); sprout::shuffle(b.it<ra>(0), b.it<ra>(5), s); V g = b.get(); if (sorted(g) != v) report("shuffle permutes", str(g)); hist[g]++; }); eq("shuffle reaches every permutation", (long)hist.size(), 120L); bool uni = true; for (auto& h : hist) if (h.second != hist.begin()->second) uni = false; ok("shuffle is uniform over all answers", uni && cut == 0); }
}
MC_SECTION(random_shuffle_inplace) {
	bound("random_shuffle", "every answer of the index source for sizes 0..6");
	for (int n = 0; n <= 6; ++n) {
		V v = iotav(n); MC_STATE("random_shuffle of " + std::to_string(n));
		hist.clear();
		explore([&](Choices& c) { trace(); Buf<int> b(v, -9); auto r = [&](int k) { ok("random_shuffle asks for an index in range", k >= 1 && k <= n); return c(k); }; sprout::random_shuffle(b.it<ra>(0), b.it<ra>(n), r); ok("random_shuffle permutes", sorted(b.get()) == v && b.guards()); hist[b.get()]++; });
		eq("random_shuffle reaches every permutation", (long)hist.size(), fact(n));
		bool uni = true; for (auto& h : hist) if (h.second != hist.begin()->second) uni = false;
		ok("random_shuffle is uniform over all answers", uni);
		explore([&](Choices& c) { trace(); Buf<int> b(v, -9); auto r = [&](int k) { return c(k); }; sprout::range::random_shuffle(mkr(b.it<ra>(0), b.it<ra>(n)), r); ok("range::random_shuffle permutes", sorted(b.get()) == v && b.guards()); hist[b.get()]--; });
		bool bal = true; for (auto& h : hist) bal = bal && h.second == 0; ok("range::random_shuffle equals random_shuffle", bal);
	}
}
static bool one_swap(V const& v, V const& g) { if (sorted(g) != sorted(v)) return false; int d = 0; for (std::size_t i = 0; i < v.size(); ++i) d += v[i] != g[i]; return d == 0 || d == 2; }
MC_SECTION(random_swap_inplace) {
	bound("random_swap", "every answer path of a 12-valued source for sizes 0..4 (and 30-valued for 5,6)");
	for (int n = 0; n <= 6; ++n) {
		V v = iotav(n); MC_STATE("random_swap of " + std::to_string(n));
		paths(n <= 4 ? 12 : 30, 4, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); sprout::random_swap(b.it<ra>(0), b.it<ra>(n), s); ok("random_swap swaps at most one pair", one_swap(v, b.get()) && b.guards()); hist[b.get()]++; });
		eq("random_swap reaches every pair", (long)hist.size(), n < 2 ? 1L : 1L + n * (n - 1) / 2);
		paths(n <= 4 ? 12 : 30, 4, [&](Tape& t) { Buf<int> b(v, -9); sprout::range::random_swap(mkr(b.it<ra>(0), b.it<ra>(n)), Src(t)); ok("range::random_swap swaps at most one pair", one_swap(v, b.get()) && b.guards()); hist[b.get()]++; });
		eq("range::random_swap reaches every pair", (long)hist.size(), n < 2 ? 1L : 1L + n * (n - 1) / 2);
	}
}
static long choose(int n, int k) { return k == 0 || k == n ? 1 : choose(n - 1, k - 1) + choose(n - 1, k); }
static long weight(unsigned draws) { long w = 1; for (unsigned i = draws; i < 6; ++i) w *= 12; return w; } // a path of k draws stands for 12^(6-k) sources
template<class Tag> static void sample_out(int n, int k, unsigned m) { // forward output: selection sampling keeps the order
	V v = iotav(n); MC_STATE("sample " + std::to_string(k) + " of " + std::to_string(n) + " to " + tagname<Tag>::n());
	int e = std::min(n, k);
	paths(m, 8, [&](Tape& t) { Buf<int> b(v, -9), o(V(e, 77), -8); Src s(t); auto r = sprout::sample(b.cit<fwd>(0), b.cit<fwd>(n), o.it<Tag>(0), k, s); eq("sample returns", o.pos(r), e); V g = o.get(); V q = sorted(g); ok("sample selects distinct elements", std::includes(v.begin(), v.end(), q.begin(), q.end()) && std::adjacent_find(q.begin(), q.end()) == q.end() && o.guards() && b.unchanged()); hist[q] += weight(s.k); });
	eq("sample reaches every subset", (long)hist.size(), choose(n, e));
	bool uni = true; for (auto& h : hist) if (h.second != hist.begin()->second) uni = false;
	ok("sample is uniform over all answers", uni && cut == 0);
}
MC_SECTION(sample) {
	bound("sample", "populations 0..4, sample sizes 0..5, every answer path of a 12-valued source, every output category");
	for (int n = 0; n <= 4; ++n) for (int k = 0; k <= n + 1; ++k) {
		sample_out<ra>(n, k, 12); sample_out<Ptr>(n, k, 12);
		// through an output iterator the order of the population is kept
		V v = iotav(n); int e = std::min(n, k); MC_STATE("sample " + std::to_string(k) + " of " + std::to_string(n) + " to an output iterator");
		paths(12, 8, [&](Tape& t) { Buf<int> b(v, -9); V g; Src s(t); sprout::sample(b.cit<fwd>(0), b.cit<fwd>(n), std::back_inserter(g), k, s); ok("sample(output) keeps the order and selects", (int)g.size() == e && std::includes(v.begin(), v.end(), g.begin(), g.end())); hist[g] += weight(s.k); });
		eq("sample(output) reaches every subset", (long)hist.size(), choose(n, e));
		bool uni = true; for (auto& h : hist) if (h.second != hist.begin()->second) uni = false;
		ok("sample(output) is uniform over all answers", uni && cut == 0);
		paths(12, 8, [&](Tape& t) { Buf<int> b(v, -9), o(V(e, 77), -8); sprout::range::sample(mkr(b.cit<fwd>(0), b.cit<fwd>(n)), o.it<ra>(0), k, Src(t)); V q = sorted(o.get()); ok("range::sample selects", std::includes(v.begin(), v.end(), q.begin(), q.end()) && o.guards()); hist[q]++; });
	}
}
template<class Cmp> static void bsorts(V const& v, unsigned limit, Cmp cmp, const char* nm) {
	int n = v.size(); MC_STATE(std::string(nm) + " " + str(v));
	V w(v); std::sort(w.begin(), w.end(), cmp);
	unsigned m = n == 3 ? 6 : 2;
	long done = 0;
	paths(m, limit, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); try { sprout::bogo_sort(b.it<ra>(0), b.it<ra>(n), s, cmp); } catch (TooLong&) { ok("bogo_sort permutes while running", sorted(b.get()) == sorted(v) && b.guards()); throw; } ++done; eq("bogo_sort", b.get(), w); ok("bogo_sort guards", b.guards()); if (v == w) eq("bogo_sort of a sorted range draws nothing", (int)s.k, 0); });
	ok("bogo_sort terminates on some answers", done > 0); done = 0;
	paths(m, limit, [&](Tape& t) { Buf<int> b(v, -9); Src s(t); try { sprout::bozo_sort(b.it<ra>(0), b.it<ra>(n), s, cmp); } catch (TooLong&) { ok("bozo_sort permutes while running", sorted(b.get()) == sorted(v) && b.guards()); throw; } ++done; eq("bozo_sort", b.get(), w); ok("bozo_sort guards", b.guards()); });
	ok("bozo_sort terminates on some answers", done > 0);
}
MC_SECTION(bogo_bozo) {
	bound("bogo_sort/bozo_sort", "all sequences over {0,1,2} up to length 3, every answer path up to 5 draws, 6 thorough (12 for length 2)");
	sequences_upto(3, 3, [&](V const& v) { if (v.size() == 2) { bsorts(v, 12, Less(), "bogo/bozo"); bsorts(v, 12, Greater(), "bogo/bozo greater"); } else { bsorts(v, thorough() ? 6 : 5, Less(), "bogo/bozo"); bsorts(v, thorough() ? 6 : 5, Greater(), "bogo/bozo greater"); } });
	for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) { V v = {x, y}; Buf<int> b(v, -9); MC_STATE("default order " + str(v)); trace(); sprout::minstd_rand0 g(7); V w = sorted(v); sprout::bogo_sort(b.it<ra>(0), b.it<ra>(2), g); eq("bogo_sort(default order)", b.get(), w); Buf<int> c(v, -9); sprout::bozo_sort(c.it<ra>(0), c.it<ra>(2), g); eq("bozo_sort(default order)", c.get(), w); }
}

// ---- container-returning forms
template<class C> struct Un { static V in(C const& c) { return V(c.begin(), c.end()); } };
template<class C> static V content(C const& c) { return V(c.begin(), c.end()); }
template<class A> static V whole(sprout::sub_array<A> const& c) { return V(c.get_internal().begin(), c.get_internal().end()); }
template<class C> static V whole(C const& c) { return content(c); }
// a result permutes the window of c and leaves the rest alone
template<class C> static bool perm_of(C const& r, C const& c) {
	V a = content(c), b = content(r), wa = whole(c), wb = whole(r);
	if (sorted(a) != sorted(b) || wa.size() != wb.size()) return false;
	int off = 0; if (std::is_same<C, sprout::sub_array<sprout::array<int, 5> > >::value) off = sprout::internal_begin_offset(c);
	for (int i = 0; i < (int)wa.size(); ++i) if ((i < off || i >= off + (int)a.size()) && wa[i] != wb[i]) return false;
	return sprout::internal_begin_offset(c) == sprout::internal_begin_offset(r);
}
template<class C> static void fixed_forms(C const& c, const char* nm) {
	int n = sprout::size(c); V v = content(c);
	unsigned m = n > 1 ? n : 2;
	MC_STATE(std::string(nm) + " " + str(v) + " of " + str(whole(c)));
	paths(m, 8, [&](Tape& t) { Src const s(t); auto r = sprout::fixed::shuffle(c, s); ok("fixed::shuffle permutes", perm_of<C>(r, c)); hist[content(r)]++;
		auto q = sprout::shuffle(c, Src(t)); eq("shuffle equals fixed::shuffle", content(q), content(r));
		auto z = sprout::fixed::shuffle_result(c, s); eq("shuffle_result contents", content(sprout::first(z)), content(r)); eq("shuffle_result draws", (int)sprout::second(z).k, n > 1 ? n : 0); ok("shuffle_result permutes", perm_of<C>(sprout::first(z), c));
		auto f = sprout::fit::shuffle(c, s); eq("fit::shuffle", content(f), content(r)); auto fz = sprout::fit::shuffle_result(c, s); eq("fit::shuffle_result", content(sprout::first(fz)), content(r)); eq("fit::shuffle_result draws", (int)sprout::second(fz).k, n > 1 ? n : 0); });
	eq("fixed::shuffle reaches every permutation", (long)hist.size(), fact(n)); ok("fixed::shuffle ends", cut == 0);
	paths(m, 8, [&](Tape& t) { Src const s(t); auto r = sprout::fixed::random_swap(c, s); ok("fixed::random_swap swaps at most one pair", perm_of<C>(r, c) && one_swap(v, content(r))); hist[content(r)]++;
		auto q = sprout::random_swap(c, Src(t)); eq("random_swap equals fixed::random_swap", content(q), content(r));
		auto z = sprout::fixed::random_swap_result(c, s); eq("random_swap_result contents", content(sprout::first(z)), content(r)); eq("random_swap_result draws", (int)sprout::second(z).k, n > 1 ? 2 : 0);
		auto f = sprout::fit::random_swap(c, s); eq("fit::random_swap", content(f), content(r)); auto fz = sprout::fit::random_swap_result(c, s); eq("fit::random_swap_result", content(sprout::first(fz)), content(r)); eq("fit::random_swap_result draws", (int)sprout::second(fz).k, n > 1 ? 2 : 0); });
	eq("fixed::random_swap reaches every pair", (long)hist.size(), n < 2 ? 1L : 1L + n * (n - 1) / 2);
}
template<class C> static void fixed_sorts(C const& c, const char* nm, unsigned limit) {
	int n = sprout::size(c); V v = content(c); unsigned m = n > 1 ? n : 2;
	MC_STATE(std::string(nm) + " " + str(v) + " of " + str(whole(c)));
	V up = sorted(v), down(up.rbegin(), up.rend());
	paths(m, limit, [&](Tape& t) { Src const s(t);
		auto r = sprout::fixed::bogo_sort(c, s); eq("fixed::bogo_sort", content(r), up); ok("fixed::bogo_sort permutes", perm_of<C>(r, c));
		auto z = sprout::fixed::bogo_sort_result(c, s); eq("bogo_sort_result", content(sprout::first(z)), up); if (v == up) eq("bogo_sort_result of a sorted range draws nothing", (int)sprout::second(z).k, 0); else { eq("bogo_sort_result draws whole rounds", (int)sprout::second(z).k % n, 0); eq("bogo_sort_result draws as many answers as it used", sprout::second(z).k, (unsigned)t.a.size()); }
		eq("fit::bogo_sort", content(sprout::fit::bogo_sort(c, s)), up); eq("fit::bogo_sort_result", content(sprout::first(sprout::fit::bogo_sort_result(c, s))), up); eq("bogo_sort", content(sprout::bogo_sort(c, Src(t))), up); });
	paths(m, limit, [&](Tape& t) { Src const s(t);
		auto r = sprout::fixed::bogo_sort(c, s, Greater()); eq("fixed::bogo_sort(greater)", content(r), down); eq("bogo_sort_result(greater)", content(sprout::first(sprout::fixed::bogo_sort_result(c, s, Greater()))), down); eq("fit::bogo_sort(greater)", content(sprout::fit::bogo_sort(c, s, Greater())), down); eq("fit::bogo_sort_result(greater)", content(sprout::first(sprout::fit::bogo_sort_result(c, s, Greater()))), down); });
	paths(m, limit, [&](Tape& t) { Src const s(t);
		auto r = sprout::fixed::bozo_sort(c, s); eq("fixed::bozo_sort", content(r), up); ok("fixed::bozo_sort permutes", perm_of<C>(r, c));
		auto z = sprout::fixed::bozo_sort_result(c, s); eq("bozo_sort_result", content(sprout::first(z)), up); if (v == up) eq("bozo_sort_result of a sorted range draws nothing", (int)sprout::second(z).k, 0); else eq("bozo_sort_result draws as many answers as it used", sprout::second(z).k, (unsigned)t.a.size());
		eq("fit::bozo_sort", content(sprout::fit::bozo_sort(c, s)), up); eq("fit::bozo_sort_result", content(sprout::first(sprout::fit::bozo_sort_result(c, s))), up); eq("bozo_sort", content(sprout::bozo_sort(c, Src(t))), up); });
	paths(m, limit, [&](Tape& t) { Src const s(t);
		auto r = sprout::fixed::bozo_sort(c, s, Greater()); eq("fixed::bozo_sort(greater)", content(r), down); eq("bozo_sort_result(greater)", content(sprout::first(sprout::fixed::bozo_sort_result(c, s, Greater()))), down); eq("fit::bozo_sort(greater)", content(sprout::fit::bozo_sort(c, s, Greater())), down); eq("fit::bozo_sort_result(greater)", content(sprout::first(sprout::fit::bozo_sort_result(c, s, Greater()))), down); });
}
template<int N> sprout::array<int, N> arr() { sprout::array<int, N> a; for (int i = 0; i < N; ++i) a[i] = 1 + 3 * i; return a; }
MC_SECTION(fixed_arrays) {
	bound("container forms", "sizes 1..4 (5 in windows), every answer path of an n-valued source");
	fixed_forms(arr<1>(), "array"); fixed_forms(arr<2>(), "array"); fixed_forms(arr<3>(), "array"); fixed_forms(arr<4>(), "array");
}
MC_SECTION(fixed_windows) {
	typedef sprout::array<int, 5> A; A a = arr<5>();
	for (int l = 0; l <= 5; ++l) for (int h = l; h <= 5; ++h) if (h - l <= (thorough() ? 5 : 4)) fixed_forms(sprout::sub_array<A>(a, l, h), "sub_array");
}
MC_SECTION(fixed_strings) {
	for (int n = 0; n <= 4; ++n) { std::string s; for (int i = 0; i < n; ++i) s += char('a' + i); fixed_forms(sprout::basic_string<char, 4>(s.c_str()), "string"); }
}
MC_SECTION(fixed_sorts) {
	bound("container sorts", "all permutations and multisets of up to 3 elements, every answer path up to 9 draws");
	for (int x = 0; x < 3; ++x) { fixed_sorts(sprout::array<int, 1>{{x}}, "array", 6); for (int y = 0; y < 3; ++y) { fixed_sorts(sprout::array<int, 2>{{x, y}}, "array", 8); for (int z = 0; z < 3; ++z) fixed_sorts(sprout::array<int, 3>{{x, y, z}}, "array", 6); } }
	typedef sprout::array<int, 5> A; A a = {{4, 2, 3, 0, 1}};
	for (int l = 0; l <= 5; ++l) for (int h = l; h <= 5; ++h) if (h - l <= 3) fixed_sorts(sprout::sub_array<A>(a, l, h), "sub_array", 6);
	for (const char* s : {"", "a", "ba", "ab", "cba", "bca"}) fixed_sorts(sprout::basic_string<char, 4>(s), "string", 6);
}
