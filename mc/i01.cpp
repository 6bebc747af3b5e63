// I01: iterator laws of every iterator adaptor, over checked base iterators of every category.
#include "iters.hpp"
#include "preds.hpp"
#include "laws.hpp"
#include <sprout/iterator.hpp>
#include <sprout/iterator/index_iterator.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
using namespace mc;
typedef std::vector<int> V;
static int NL() { return thorough() ? 6 : 4; }
#define B(i) b.template cit<Tag>(i)
#define C_(i) c.template cit<Tag>(i)
template<class Tag, class F> void each1(const char* name, int nmax, F const& f) {
	sequences_upto(nmax, 3, [&](V const& v) {
		MC_STATE(std::string(name) + " over " + tagname<Tag>::n() + " " + str(v)); trace();
		Buf<int> b(v, 7); f(b, v);
		ok("the base sequence is not changed", b.unchanged());
	});
}
template<class F> void sorted_upto(int n, int k, F const& f) { sequences_upto(n, k, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) f(v); }); }

#if PART == 1
// an element that satisfies the predicate lies behind the one that stopped the walk
static bool later(V const& v, size_t stop, int p) { for (size_t i = stop; i < v.size(); ++i) if (v[i] >= p) return true; return false; }
template<class I> void while_back(I b, I e, V const& h, std::bidirectional_iterator_tag) {
	I last = sprout::next(b, (std::ptrdiff_t)h.size() - 1);
	I i = e; --i; eq("while: --end [KF-while-back]", i == last, true);
	if (h.size() > 1) { I j = last; --j; eq("while: --it", *j, h[h.size() - 2]); }
}
template<class I> void while_back(I, I, V const&, std::input_iterator_tag) {}
template<class Tag> void filters() {
	each1<Tag>("filters", NL(), [](Buf<int>& b, V const& v) {
		int n = (int)v.size();
		for (int p = 0; p < 3; ++p) {
			V w, r, h; for (int x : v) { if (x == p) w.push_back(x); else r.push_back(x); }
			for (int x : v) { if (!(x >= p)) break; h.push_back(x); }
			laws("filter", sprout::make_filter_iterator(Is(p), B(0), B(n)), sprout::make_filter_iterator(Is(p), B(n), B(n)), w);
			laws("remove_if", sprout::make_remove_if_iterator(Is(p), B(0), B(n)), sprout::make_remove_if_iterator(Is(p), B(n), B(n)), r);
			laws("remove", sprout::make_remove_iterator(p, B(0), B(n)), sprout::make_remove_iterator(p, B(n), B(n)), r);
			laws("while", sprout::make_while_iterator(Ge(p), B(0), B(n)), sprout::make_while_iterator(Ge(p), B(n), B(n)), h, later(v, h.size(), p) ? FORWARD_ONLY : ALL);
			if (later(v, h.size(), p) && !h.empty()) while_back(sprout::make_while_iterator(Ge(p), B(0), B(n)), sprout::make_while_iterator(Ge(p), B(n), B(n)), h, typename std::iterator_traits<decltype(B(0))>::iterator_category());
		}
		V u(v); u.erase(std::unique(u.begin(), u.end()), u.end());
		laws("unique", sprout::make_unique_iterator(B(0), B(n)), sprout::make_unique_iterator(B(n), B(n)), u);
		V up; for (size_t i = 0; i < v.size(); ++i) if (i == 0 || !Par()(v[i - 1], v[i])) up.push_back(v[i]);
		laws("unique(parity)", sprout::make_unique_iterator(Par(), B(0), B(n)), sprout::make_unique_iterator(Par(), B(n), B(n)), up);
		V ad; for (size_t i = 0; i < v.size(); ++i) if (i == 0 || Less()(v[i - 1], v[i])) ad.push_back(v[i]);
		laws("adjacent_filter", sprout::make_adjacent_filter_iterator(Less(), B(0), B(n)), sprout::make_adjacent_filter_iterator(Less(), B(n), B(n)), ad);
	});
}
MC_SECTION(filter_fwd) { filters<fwd>(); }
MC_SECTION(filter_bidi) { filters<bidi>(); }
MC_SECTION(filter_ra) { filters<ra>(); }
MC_SECTION(filter_ptr) { filters<Ptr>(); }
MC_SECTION(filter_nl) { filters<NLBidi>(); }
#elif PART == 2
struct Add { constexpr int operator()(int a, int b) const { return a * 10 + b; } };
struct Twice { constexpr int operator()(int a) const { return a * 2 + 1; } };
template<class Tag> void maps() {
	each1<Tag>("maps", NL(), [](Buf<int>& b, V const& v) {
		int n = (int)v.size();
		V w(v), z(v); for (int& x : w) x = Twice()(x); for (int i = 0; i < n; ++i) z[i] = Add()(v[i], i + 4);
		V q(v); for (int i = 0; i < n; ++i) q[i] = i + 4;
		Buf<int> c(q, 9);
		laws("transform", sprout::make_transform_iterator(B(0), Twice()), sprout::make_transform_iterator(B(n), Twice()), w);
		laws("transform2", sprout::make_transform_iterator(B(0), C_(0), Add()), sprout::make_transform_iterator(B(n), C_(n), Add()), z);
		for (int lo = 0; lo < 3; ++lo) for (int hi = lo; hi < 3; ++hi) {
			V k(v); for (int& x : k) x = std::min(std::max(x, lo), hi);
			laws("clamp", sprout::make_clamp_iterator(B(0), lo, hi), sprout::make_clamp_iterator(B(n), lo, hi), k);
			laws("clamp(comp)", sprout::make_clamp_iterator(B(0), hi, lo, Greater()), sprout::make_clamp_iterator(B(n), hi, lo, Greater()), k);
			V rp(v); std::replace(rp.begin(), rp.end(), lo, hi + 5);
			laws("replace", sprout::make_replace_iterator(B(0), lo, hi + 5), sprout::make_replace_iterator(B(n), lo, hi + 5), rp);
			laws("replace_if", sprout::make_replace_if_iterator(B(0), Is(lo), hi + 5), sprout::make_replace_if_iterator(B(n), Is(lo), hi + 5), rp);
		}
		{ Buf<int> m(v, 7); laws("move", sprout::make_move_iterator(m.template it<Tag>(0)), sprout::make_move_iterator(m.template it<Tag>(n)), v); }
		laws("indexed", sprout::make_indexed_iterator(B(0), 3), sprout::make_indexed_iterator(B(n), 3 + n), v);
		laws("valued", sprout::make_valued_iterator(B(0), 8), sprout::make_valued_iterator(B(n), 8), v);
		auto ix = sprout::make_indexed_iterator(B(0), 3); auto vd = sprout::make_valued_iterator(B(0), 8);
		for (int i = 0; i <= n; ++i) {
			eq("indexed: index", (int)ix.index(), 3 + i); eq("indexed: next(it, n).index", (int)sprout::next(sprout::make_indexed_iterator(B(0), 3), i).index(), 3 + i);
			eq("valued: value", vd.get(), 8);
			if (i < n) { ++ix; ++vd; }
		}
	});
}
MC_SECTION(maps_fwd) { maps<fwd>(); }
MC_SECTION(maps_bidi) { maps<bidi>(); }
MC_SECTION(maps_ra) { maps<ra>(); }
MC_SECTION(maps_ptr) { maps<Ptr>(); }
MC_SECTION(maps_nl) { maps<NLRa>(); }
#elif PART == 3
template<class Tag> void revs() {
	each1<Tag>("reverse", NL() + 1, [](Buf<int>& b, V const& v) {
		int n = (int)v.size();
		V r(v.rbegin(), v.rend());
		laws("reverse", sprout::make_reverse_iterator(B(n)), sprout::make_reverse_iterator(B(0)), r);
		laws("reverse twice", sprout::make_reverse_iterator(sprout::make_reverse_iterator(B(0))), sprout::make_reverse_iterator(sprout::make_reverse_iterator(B(n))), v);
	});
}
template<class Tag> void pairs() {
	sequences_upto(NL() - 1, 3, [](V const& v) { sequences_upto(3, 2, [&](V const& w0) {
		V w(w0); for (int& x : w) x += 4;
		MC_STATE("joint over " + std::string(tagname<Tag>::n()) + " " + str(v) + " " + str(w)); trace();
		Buf<int> b(v, 7), c(w, 9); int n = (int)v.size(), m = (int)w.size();
		V j(v); j.insert(j.end(), w.begin(), w.end());
		laws("joint", sprout::make_joint_iterator(B(0), B(n), C_(0), C_(0)), sprout::make_joint_iterator(B(n), B(n), C_(0), C_(m)), j);
		for (int p = 0; p <= n; ++p) {
			V s(v); s.insert(s.begin() + p, w.begin(), w.end());
			laws("insert_range", sprout::make_insert_range_iterator(B(0), B(p), C_(0), C_(0), C_(m)), sprout::make_insert_range_iterator(B(n), B(p), C_(m), C_(0), C_(m)), s);
		}
		if (n == m) {
			V a; for (int i = 0; i < n; ++i) { a.push_back(v[i]); a.push_back(w[i]); }
			laws("alternate", sprout::make_alternate_iterator(B(0), C_(0)), sprout::make_alternate_iterator(B(n), C_(n)), a);
		}
	}); });
}
MC_SECTION(reverse_bidi) { revs<bidi>(); }
MC_SECTION(reverse_ra) { revs<ra>(); }
MC_SECTION(reverse_ptr) { revs<Ptr>(); }
MC_SECTION(pairs_fwd) { pairs<fwd>(); }
MC_SECTION(pairs_bidi) { pairs<bidi>(); }
MC_SECTION(pairs_ra) { pairs<ra>(); }
MC_SECTION(pairs_ptr) { pairs<Ptr>(); }
#elif PART == 4
template<class Tag, class Cmp> void sets(Cmp cmp, const char* cn) {
	auto go = [&](V const& v, V const& w) {
		MC_STATE("sorted pair over " + std::string(tagname<Tag>::n()) + " " + cn + " " + str(v) + " " + str(w)); trace();
		Buf<int> b(v, 7), c(w, 7); int n = (int)v.size(), m = (int)w.size();
		#define SET(name) { V s; std::name(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(s), cmp); \
			laws(#name, sprout::make_##name##_iterator(B(0), B(n), C_(0), C_(m), cmp), sprout::make_##name##_iterator(B(n), B(n), C_(m), C_(m), cmp), s, BACK); }
		#define BACK ALL
		SET(set_union) SET(set_intersection) SET(set_difference) SET(set_symmetric_difference)
		SET(merge)
	};
	std::vector<V> s;
	sequences_upto(thorough() ? 5 : 4, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end(), cmp)) s.push_back(v); });
	for (auto& x : s) for (auto& y : s) go(x, y);
}
MC_SECTION(sets_fwd) { sets<fwd>(Less(), "less"); }
MC_SECTION(sets_bidi) { sets<bidi>(Less(), "less"); sets<bidi>(Greater(), "greater"); }
MC_SECTION(sets_ra) { sets<ra>(Less(), "less"); }
MC_SECTION(sets_ptr) { sets<Ptr>(Less(), "less"); sets<Ptr>(Greater(), "greater"); }
#elif PART == 5
#include <sprout/iterator/step_iterator.hpp>
template<class Tag> void steps() {
	for (int n = 0; n <= (thorough() ? 12 : 8); ++n) for (int w = 1; w <= 4; ++w) {
		V v; for (int i = 0; i < n; ++i) v.push_back(i * 3 + 1);
		MC_STATE("step over " + std::string(tagname<Tag>::n()) + " length " + str(n) + " width " + str(w)); trace();
		Buf<int> b(v, 7); typedef sprout::step_iterator<decltype(B(0))> S;
		V e; for (int i = 0; i < n; i += w) e.push_back(v[i]);
		laws("step", S(B(0), w, B(n)), S(B(n), w, B(n)), e, FORWARD_ONLY);
		if (n) laws("step(reached end)", S(B(0), w, B(n)), sprout::next(S(B(0), w, B(n)), (n + w - 1) / w), e);
		if (n % w == 0) laws("step(exact)", S(B(0), w, B(n)), S(B(n), w, B(n)), e);
	}
}
template<class Tag> void remakes() {
	for (int n = 0; n <= 4; ++n) for (int m = 0; m <= 3; ++m) for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) {
		V v, w; for (int i = 0; i < n; ++i) v.push_back(i + 1); for (int i = 0; i < m; ++i) w.push_back(i + 100);
		MC_STATE("remake over " + std::string(tagname<Tag>::n()) + " " + str(v) + " with " + str(w) + " in window " + str(f) + ".." + str(l)); trace();
		Buf<int> b(v, 7), c(w, 9);
		V e(v); for (int i = f; i < l && i - f < m; ++i) e[i] = w[i - f];
		auto bb = sprout::make_remake_iterator(B(0), C_(0), C_(0), C_(m), f, l), ee = sprout::make_remake_iterator(B(n), C_(m), C_(0), C_(m), f - n, l - n);
		laws("remake", bb, ee, e, FORWARD_ONLY);
		if (m == l - f) laws("remake(exact)", bb, ee, e);
	}
}
typedef sprout::basic_string<char, 8> Str;
template<class Tag> void sizes() {
	sequences_upto(NL(), 3, [](V const& v) {
		MC_STATE("size_enum over " + std::string(tagname<Tag>::n()) + " strings of lengths " + str(v)); trace();
		std::vector<Str> s; for (int x : v) s.push_back(Str(x + 1, 'a'));
		Buf<Str> b(s, Str("xyzxyz")); int n = (int)v.size();
		std::vector<std::ptrdiff_t> e, g; for (int i = 0; i < n; ++i) { e.push_back(v[i] + 1); g.push_back(v[i] + 1); g.push_back(7); }
		laws("size_enum", sprout::make_size_enum_iterator(B(0)), sprout::make_size_enum_iterator(B(n)), e);
		laws("size_enum(separated)", sprout::make_size_enum_iterator(B(0), 7), sprout::make_size_enum_iterator(B(n), 7), g);
		if (n) { g.pop_back(); laws("size_enum(separated, open end)", sprout::make_size_enum_iterator(B(0), 7), sprout::make_size_enum_iterator(B(n - 1), 7, true), g); }
	});
}
MC_SECTION(step_fwd) { steps<fwd>(); }
MC_SECTION(step_bidi) { steps<bidi>(); }
MC_SECTION(step_ra) { steps<ra>(); }
MC_SECTION(step_ptr) { steps<Ptr>(); }
MC_SECTION(remake_fwd) { remakes<fwd>(); }
MC_SECTION(remake_bidi) { remakes<bidi>(); }
MC_SECTION(remake_ra) { remakes<ra>(); }
MC_SECTION(remake_ptr) { remakes<Ptr>(); }
MC_SECTION(sizes_fwd) { sizes<fwd>(); }
MC_SECTION(sizes_bidi) { sizes<bidi>(); }
MC_SECTION(sizes_ra) { sizes<ra>(); }
MC_SECTION(sizes_ptr) { sizes<Ptr>(); }
#elif PART == 6
#include <sprout/iterator/counting_iterator.hpp>
#include <sprout/iterator/value_iterator.hpp>
#include <sprout/iterator/ptr_index_iterator.hpp>
#include <sprout/iterator/wave.hpp>
#include <sprout/iterator/inserter.hpp>
#include <cmath>
MC_SECTION(counting) {
	for (int a = -3; a <= 3; ++a) for (int n = 0; n <= 6; ++n) {
		MC_STATE("counting from " + str(a) + " length " + str(n)); trace();
		V e; for (int i = 0; i < n; ++i) e.push_back(a + i);
		laws("counting", sprout::make_counting_iterator(a), sprout::make_counting_iterator(a + n), e);
		std::vector<long> f(e.begin(), e.end());
		laws("counting(long)", sprout::make_counting_iterator((long)a), sprout::make_counting_iterator((long)a + n), f);
		std::vector<double> d(e.begin(), e.end());
		int arr[8] = {5, 6, 7, 8, 9, 10, 11, 12};
		typedef int* P; std::vector<P> p; for (int i = 0; i < n; ++i) p.push_back(arr + i);
		laws("counting(pointer)", sprout::make_counting_iterator(arr + 0), sprout::make_counting_iterator(arr + n), p);
	}
}
MC_SECTION(value) {
	for (int a = -1; a <= 1; ++a) for (int n = 0; n <= 6; ++n) {
		MC_STATE("value " + str(a) + " repeated " + str(n)); trace();
		laws("value", sprout::value_iterator<int>(a, n), sprout::value_iterator<int>(a, 0), V(n, a));
		static int x; x = a;
		laws("value(reference)", sprout::value_iterator<int const&>(x, n), sprout::value_iterator<int const&>(x, 0), V(n, a));
	}
}
MC_SECTION(index) {
	sequences_upto(NL(), 3, [](V const& v) {
		MC_STATE("index iterators over " + str(v)); trace();
		Buf<int> b(v, 7); int n = (int)v.size();
		laws("ptr_index", sprout::make_ptr_index_iterator(b.lo()), sprout::make_ptr_index_iterator(b.lo(), n), v);
		laws("ptr_index(offset)", sprout::make_ptr_index_iterator(b.lo() - 2, 2), sprout::make_ptr_index_iterator(b.lo() - 2, n + 2), v);
		sprout::array<int, 8> a = {{0}}; for (int i = 0; i < n; ++i) a[i] = v[i];
		laws("index", sprout::index_iterator<sprout::array<int, 8>&, true>(a, 0), sprout::index_iterator<sprout::array<int, 8>&, true>(a, n), v);
		laws("index(const)", sprout::index_iterator<sprout::array<int, 8> const&, true>(a, 0), sprout::index_iterator<sprout::array<int, 8> const&, true>(a, n), v);
	});
}
static double saw(double t) { return 2 * (t - std::floor(t + 0.5)); }
static const double TP = 6.283185307179586476925286766559;
MC_SECTION(waves) {
	static const double F[] = {0, 0.125, 0.25, 0.5, 1, 1.5}, A[] = {1, 2.5, 0}, P[] = {0, 0.25, -0.5, 1};
	for (double f : F) for (double a : A) for (double p : P) for (int s = -3; s <= 3; s += 3) {
		MC_STATE("wave frequency " + str(f) + " amplitude " + str(a) + " phase " + str(p) + " from " + str(s)); trace();
		std::vector<long> w, q, t, si; const int n = 9;
		auto R = [](double x) { return (long)std::floor(x * 1e6 + 0.5); };
		for (int i = s; i < s + n; ++i) {
			double u = f * i + p, fr = u - std::floor(u);
			w.push_back(R(a * saw(u))); q.push_back(R(a * (fr < 0.5 ? 1 : -1)));
			t.push_back(R(a * (fr < 0.25 ? 4 * fr : fr < 0.75 ? 2 - 4 * fr : 4 * fr - 4))); si.push_back(R(a * std::sin(TP * f * i + p)));
		}
		laws("sawtooth", sprout::sawtooth_iterator<double>(s, f, a, p), sprout::sawtooth_iterator<double>(s + n, f, a, p), w, ALL, R);
		laws("square", sprout::square_iterator<double>(s, f, a, p), sprout::square_iterator<double>(s + n, f, a, p), q, ALL, R);
		laws("triangle", sprout::triangle_iterator<double>(s, f, a, p), sprout::triangle_iterator<double>(s + n, f, a, p), t, ALL, R);
		laws("sinusoid", sprout::sinusoid_iterator<double>(s, f, a, p), sprout::sinusoid_iterator<double>(s + n, f, a, p), si, ALL, R);
	}
}
MC_SECTION(inserters) {
	sequences_upto(3, 3, [](V const& v) { sequences_upto(3, 2, [&](V const& w) { for (int p = 0; p <= (int)v.size(); ++p) {
		MC_STATE("inserting " + str(w) + " into " + str(v) + " at " + str(p)); trace();
		V b(v), f(v.rbegin(), v.rend()), m(v); std::deque<int> d(v.begin(), v.end());
		auto bi = sprout::back_inserter(b); for (int x : w) { *bi = x; ++bi; }
		auto fi = sprout::front_inserter(d); for (int x : w) *fi++ = x;
		auto ii = sprout::inserter(m, m.begin() + p); for (int x : w) { *ii = x; ++ii; }
		V eb(v), em(v); eb.insert(eb.end(), w.begin(), w.end()); em.insert(em.begin() + p, w.begin(), w.end());
		V ef(w.rbegin(), w.rend()); ef.insert(ef.end(), v.begin(), v.end());
		{ // the same through rvalues, with the other ways of stepping
			std::vector<std::string> sb(3, "x"), sm(sb), eb2(sb), em2(sb); std::deque<std::string> sf(3, "x"), ef2(sf);
			auto B1 = sprout::back_inserter(sb); auto F1 = sprout::front_inserter(sf); auto I1 = sprout::inserter(sm, sm.begin() + p);
			for (int x : w) { std::string s1(40, 'a' + x), s2(s1), s3(s1); eb2.push_back(s1); ef2.push_front(s1); *B1++ = std::move(s1); *F1 = std::move(s2); ++F1; *I1++ = std::move(s3); ok("insert iterators take over an rvalue", s1.empty() && s2.empty() && s3.empty()); }
			for (size_t i = 0; i < w.size(); ++i) em2.insert(em2.begin() + p + i, std::string(40, 'a' + w[i]));
			eq("back_inserter(rvalue)", sb, eb2); ok("front_inserter(rvalue)", sf == ef2); eq("inserter(rvalue)", sm, em2);
		}
		eq("back_inserter", b, eb); eq("front_inserter", V(d.begin(), d.end()), ef); eq("inserter", m, em);
	} }); });
}
#elif PART == 7
// conversion from an adaptor over mutable iterators to the one over const iterators, what the iterator says about itself, and access to members
#include <sprout/iterator/step_iterator.hpp>
#include <sprout/iterator/counting_iterator.hpp>
#include <sprout/iterator/value_iterator.hpp>
#include <sprout/iterator/ptr_index_iterator.hpp>
#include <sprout/iterator/wave.hpp>
template<class CI> V rest(CI i, CI const& e) { V r; for (; i != e; ++i) r.push_back(*i); return r; }
template<class CI, class MI> void conv(const char* name, MI b, MI e, CI cb, CI ce, V const& want, int flags = ALL) {
	static_assert(!std::is_same<CI, MI>::value, "nothing to convert");
	std::string nm = std::string(name) + " converted", na = std::string(name) + " assigned";
	laws(nm.c_str(), CI(b), CI(e), want, flags);
	CI y(ce), z(cb); CI* p = &(y = b); z = e;
	eq(na.c_str(), p == &y, true);
	laws(na.c_str(), y, z, want, flags);
	CI imp = b; eq(nm.c_str(), imp == cb, true);
	MI i = b; for (size_t k = 0; k < want.size(); ++k, ++i) { CI c(i); eq(nm.c_str(), rest(c, ce), V(want.begin() + k, want.end())); CI d(ce); d = i; eq(na.c_str(), rest(d, ce), V(want.begin() + k, want.end())); }
}
struct Pt { int x; };
inline bool operator<(Pt const& a, Pt const& b) { return a.x < b.x; }
struct PIs { int k; explicit PIs(int k_) : k(k_) {} bool operator()(Pt const& p) const { return p.x == k; } };
struct Same { template<class T> T& operator()(T& t) const { return t; } };
struct First { template<class T> T& operator()(T& t, T&) const { return t; } };
template<class I> void arrow(const char* name, I b, I e) { for (; b != e; ++b) eq(name, &b->x, &(*b).x); }
struct Mix2 { constexpr int operator()(int a, int b) const { return a * 10 + b; } };
struct Dbl { int k; constexpr explicit Dbl(int k_) : k(k_) {} constexpr int operator()(int a) const { return a * 2 + k; } };
template<class T> T const* con(T* p) { return p; }
MC_SECTION(conversion) {
	sequences_upto(thorough() ? 5 : 4, 3, [](V const& v) {
		MC_STATE("over " + str(v)); trace();
		int n = (int)v.size(); V m(v); m.push_back(7); int* b = m.data(); int* e = b + n; int const* cb = b; int const* ce = e;
		for (int p = 0; p < 3; ++p) {
			V w, r, h; for (int x : v) { if (x == p) w.push_back(x); else r.push_back(x); }
			for (int x : v) { if (!(x >= p)) break; h.push_back(x); }
			conv("filter", sprout::make_filter_iterator(Is(p), b, e), sprout::make_filter_iterator(Is(p), e, e), sprout::make_filter_iterator(Is(p), cb, ce), sprout::make_filter_iterator(Is(p), ce, ce), w);
			conv("remove_if", sprout::make_remove_if_iterator(Is(p), b, e), sprout::make_remove_if_iterator(Is(p), e, e), sprout::make_remove_if_iterator(Is(p), cb, ce), sprout::make_remove_if_iterator(Is(p), ce, ce), r);
			conv("remove", sprout::make_remove_iterator(p, b, e), sprout::make_remove_iterator(p, e, e), sprout::make_remove_iterator(p, cb, ce), sprout::make_remove_iterator(p, ce, ce), r);
			conv("while", sprout::make_while_iterator(Ge(p), b, e), sprout::make_while_iterator(Ge(p), e, e), sprout::make_while_iterator(Ge(p), cb, ce), sprout::make_while_iterator(Ge(p), ce, ce), h, FORWARD_ONLY);
			auto f = sprout::make_filter_iterator(Is(p), b, e); auto wh = sprout::make_while_iterator(Ge(p), b, e);
			int* first = std::find(b, e, p);
			ok("filter: base, end, predicate", f.base() == first && f.end() == e && f.predicate()(p) && !f.predicate()(p + 1));
			ok("while: base, end, predicate", wh.end() == e && wh.predicate()(p) && !wh.predicate()(p - 1) && (h.empty() ? wh == sprout::make_while_iterator(Ge(p), e, e) : wh.base() == b));
			V k(v); for (int& x : k) x = std::max(std::min(x, 2), p);
			conv("clamp", sprout::make_clamp_iterator(b, p, 2), sprout::make_clamp_iterator(e, p, 2), sprout::make_clamp_iterator(cb, p, 2), sprout::make_clamp_iterator(ce, p, 2), k);
			auto c = sprout::make_clamp_iterator(b, 2, p, Greater());
			ok("clamp: base, bounds, compare", c.base() == b && c.lower() == 2 && c.upper() == p && c.compare()(2, 1));
			V rp(v); std::replace(rp.begin(), rp.end(), p, 9);
			conv("replace", sprout::make_replace_iterator(b, p, 9), sprout::make_replace_iterator(e, p, 9), sprout::make_replace_iterator(cb, p, 9), sprout::make_replace_iterator(ce, p, 9), rp);
			V t(v); for (int& x : t) x = x * 2 + p;
			conv("transform", sprout::make_transform_iterator(b, Dbl(p)), sprout::make_transform_iterator(e, Dbl(p)), sprout::make_transform_iterator(cb, Dbl(p)), sprout::make_transform_iterator(ce, Dbl(p)), t);
			laws("move(by value)", sprout::make_move_iterator(sprout::make_transform_iterator(b, Dbl(p))), sprout::make_move_iterator(sprout::make_transform_iterator(e, Dbl(p))), t);
			auto tr = sprout::make_transform_iterator(b, Dbl(p)); ok("transform: base, functor", tr.base() == b && tr.functor()(3) == 6 + p);
		}
		V q(v); q.push_back(0); for (int i = 0; i < n; ++i) q[i] = i + 4; int* b2 = q.data(); int* e2 = b2 + n; int const* cb2 = b2; int const* ce2 = e2;
		{
			V z(v), al, jo(v), av(v); for (int i = 0; i < n; ++i) { z[i] = v[i] * 10 + i + 4; al.push_back(v[i]); al.push_back(q[i]); } jo.insert(jo.end(), q.begin(), q.begin() + n);
			conv("transform2", sprout::make_transform_iterator(b, b2, Mix2()), sprout::make_transform_iterator(e, e2, Mix2()), sprout::make_transform_iterator(cb, cb2, Mix2()), sprout::make_transform_iterator(ce, ce2, Mix2()), z);
			auto t2 = sprout::make_transform_iterator(b, b2, Mix2()); ok("transform2: bases, functor", t2.base() == b && t2.base2() == b2 && t2.functor()(3, 4) == 34);
			conv("alternate", sprout::make_alternate_iterator(b, b2), sprout::make_alternate_iterator(e, e2), sprout::make_alternate_iterator(cb, cb2), sprout::make_alternate_iterator(ce, ce2), al);
			auto a = sprout::make_alternate_iterator(b, b2); ok("alternate: bases", a.base() == b && a.base2() == b2);
			conv("joint", sprout::make_joint_iterator(b, e, b2, b2), sprout::make_joint_iterator(e, e, b2, e2), sprout::make_joint_iterator(cb, ce, cb2, cb2), sprout::make_joint_iterator(ce, ce, cb2, ce2), jo);
			auto j = sprout::make_joint_iterator(b, e, b2, b2); ok("joint: bases", j.base() == b && j.base2() == b2 && j.left_end() == e && j.right_begin() == b2);
			{ auto j3 = sprout::make_joint_iterator(b, e, cb2); for (int i = 0; i <= n; ++i) { eq("joint(left, right begin)", rest(sprout::next(j3, i), sprout::make_joint_iterator(e, cb2, ce2)), V(jo.begin() + i, jo.end())); eq("joint(right)", rest(sprout::make_joint_iterator(e, cb2, cb2 + i), sprout::make_joint_iterator(e, cb2, ce2)), V(jo.begin() + n + i, jo.end())); } }
			conv("indexed", sprout::make_indexed_iterator(b, 3), sprout::make_indexed_iterator(e, 3 + n), sprout::make_indexed_iterator(cb, 3), sprout::make_indexed_iterator(ce, 3 + n), v);
			auto ix = sprout::make_indexed_iterator(b, 3); ok("indexed: base, index", ix.base() == b && ix.index() == 3); { decltype(sprout::make_indexed_iterator(cb, 3)) c(ix), d(ce, 0); d = ix; ok("indexed: index converted", c.index() == 3 && d.index() == 3 && c.base() == cb); }
			conv("valued", sprout::make_valued_iterator(b, 8), sprout::make_valued_iterator(e, 8), sprout::make_valued_iterator(cb, 8), sprout::make_valued_iterator(ce, 8), v);
			auto vd = sprout::make_valued_iterator(b, 8); { decltype(sprout::make_valued_iterator(cb, 8)) c(vd), d(ce, 0); d = vd; ok("valued: value converted", vd.get() == 8 && c.get() == 8 && d.get() == 8 && c.base() == cb); }
			conv("reverse", sprout::make_reverse_iterator(e), sprout::make_reverse_iterator(b), sprout::make_reverse_iterator(ce), sprout::make_reverse_iterator(cb), V(v.rbegin(), v.rend()));
			conv("move", sprout::make_move_iterator(b), sprout::make_move_iterator(e), sprout::make_move_iterator(cb), sprout::make_move_iterator(ce), v);
			ok("reverse, move: base", sprout::make_reverse_iterator(e).base() == e && sprout::make_move_iterator(b).base() == b);
			for (int w = 1; w <= 3; ++w) {
				typedef sprout::step_iterator<int*> S; typedef sprout::step_iterator<int const*> CS; V s; for (int i = 0; i < n; i += w) s.push_back(v[i]);
				conv("step", S(b, w, e), S(e, w, e), CS(cb, w, ce), CS(ce, w, ce), s, FORWARD_ONLY);
				S st(b, w, e); ok("step: base, width", st.base() == b && st.width() == w);
			}
		}
		for (int f = 0; f <= n; ++f) for (int l = f; l <= n; ++l) for (int k = 0; k <= n; ++k) {
			V x(v); for (int i = f; i < l && i - f < k; ++i) x[i] = q[i - f];
			auto R = [&](auto b_, auto c0, auto c1, int o) { return sprout::make_remake_iterator(b_ + o, o ? c1 : c0, c0, c1, f - o, l - o); };
			conv("remake", R(b, b2, b2 + k, 0), R(b, b2, b2 + k, n), R(cb, cb2, cb2 + k, 0), R(cb, cb2, cb2 + k, n), x, FORWARD_ONLY);
			auto r = R(b, b2, b2 + k, 0); ok("remake: accessors", r.base() == b && r.base2() == b2 && r.first() == b2 && r.last() == b2 + k && r.begin_offset() == f && r.end_offset() == l);
		}
		for (int k = 0; k <= n; ++k) for (int o = 0; o <= n; ++o) {
			auto I = [&](auto b_, auto c0, auto c1, bool end) { return sprout::make_insert_range_iterator(b_ + (end ? n : 0), b_ + o, end ? c1 : c0, c0, c1); };
			V x(v); x.insert(x.begin() + o, q.begin(), q.begin() + k);
			conv("insert_range", I(b, b2, b2 + k, false), I(b, b2, b2 + k, true), I(cb, cb2, cb2 + k, false), I(cb, cb2, cb2 + k, true), x);
			auto ir = I(b, b2, b2 + k, false); ok("insert_range: accessors", ir.base() == b && ir.base2() == b2 && ir.position() == b + o && ir.first() == b2 && ir.last() == b2 + k);
		}
		{ // a sequence and itself sorted
			V s(v), t; std::sort(s.begin(), s.end()); t = s; for (int& x : t) x = x / 2 + 1; std::sort(t.begin(), t.end()); s.push_back(0); t.push_back(0);
			int* sb = s.data(); int* se = sb + n; int* tb = t.data(); int* te = tb + n;
#define SET(name, std_) { V x; std::std_(sb, se, tb, te, std::back_inserter(x)); \
	conv(#name, sprout::make_##name##_iterator(sb, se, tb, te), sprout::make_##name##_iterator(se, se, te, te), sprout::make_##name##_iterator(con(sb), con(se), con(tb), con(te)), sprout::make_##name##_iterator(con(se), con(se), con(te), con(te)), x, FORWARD_ONLY); \
	auto i = sprout::make_##name##_iterator(sb, se, tb, te); ok(#name ": ends, compare", i.last1() == se && i.last2() == te && i.compare()(1, 2) && !i.compare()(2, 1)); \
	{ std::vector<Pt> ps, pt; for (int j = 0; j < n; ++j) { ps.push_back(Pt{sb[j]}); pt.push_back(Pt{tb[j]}); } Pt* p = ps.data(); Pt* u = pt.data(); arrow(#name ": ->", sprout::make_##name##_iterator(p, p + n, u, u + n), sprout::make_##name##_iterator(p + n, p + n, u + n, u + n)); } }
			SET(merge, merge) SET(set_union, set_union) SET(set_intersection, set_intersection) SET(set_difference, set_difference) SET(set_symmetric_difference, set_symmetric_difference)
		}
		V u(v); u.erase(std::unique(u.begin(), u.end()), u.end());
		conv("unique", sprout::make_unique_iterator(b, e), sprout::make_unique_iterator(e, e), sprout::make_unique_iterator(cb, ce), sprout::make_unique_iterator(ce, ce), u);
		V ad; for (int i = 0; i < n; ++i) if (i == 0 || Less()(v[i - 1], v[i])) ad.push_back(v[i]);
		conv("adjacent_filter", sprout::make_adjacent_filter_iterator(Less(), b, e), sprout::make_adjacent_filter_iterator(Less(), e, e), sprout::make_adjacent_filter_iterator(Less(), cb, ce), sprout::make_adjacent_filter_iterator(Less(), ce, ce), ad);
		auto af = sprout::make_adjacent_filter_iterator(Less(), b, e); ok("adjacent_filter: base, end, predicate", af.base() == b && af.end() == e && af.predicate()(1, 2) && !af.predicate()(2, 1));
		conv("ptr_index", sprout::make_ptr_index_iterator(b), sprout::make_ptr_index_iterator(b, n), sprout::make_ptr_index_iterator(cb), sprout::make_ptr_index_iterator(cb, n), v);
		for (int i = 0; i <= n; ++i) { auto p = sprout::make_ptr_index_iterator(b, i); ok("ptr_index: base, index, to_pointer", p.base() == b && p.index() == i && p.ptr() == b + i);
			for (int j = -i; j <= n - i; ++j) ok("ptr_index: next, prev, distance", sprout::next(p, j).ptr() == b + i + j && sprout::prev(p, -j).ptr() == b + i + j && sprout::distance(p, sprout::next(p, j)) == j); }
	});
}
MC_SECTION(members) {
	sequences_upto(4, 3, [](V const& v) {
		MC_STATE("members over " + str(v)); trace();
		int n = (int)v.size(); std::vector<Pt> s, t; for (int x : v) { s.push_back(Pt{x}); t.push_back(Pt{x + 4}); } s.push_back(Pt{9}); t.push_back(Pt{9});
		Pt* b = s.data(); Pt* e = b + n; Pt* c = t.data(); Pt* d = c + n;
		for (int p = 0; p < 3; ++p) {
			arrow("filter: ->", sprout::make_filter_iterator(PIs(p), b, e), sprout::make_filter_iterator(PIs(p), e, e));
			arrow("remove_if: ->", sprout::make_remove_if_iterator(PIs(p), b, e), sprout::make_remove_if_iterator(PIs(p), e, e));
			arrow("while: ->", sprout::make_while_iterator(PIs(p), b, e), sprout::make_while_iterator(PIs(p), e, e));
		}
		arrow("transform: ->", sprout::make_transform_iterator(b, Same()), sprout::make_transform_iterator(e, Same()));
		arrow("transform2: ->", sprout::make_transform_iterator(b, c, First()), sprout::make_transform_iterator(e, d, First()));
		arrow("alternate: ->", sprout::make_alternate_iterator(b, c), sprout::make_alternate_iterator(e, d));
		arrow("joint: ->", sprout::make_joint_iterator(b, e, c, c), sprout::make_joint_iterator(e, e, c, d));
		arrow("indexed: ->", sprout::make_indexed_iterator(b, 0), sprout::make_indexed_iterator(e, n));
		arrow("valued: ->", sprout::make_valued_iterator(b, 0), sprout::make_valued_iterator(e, 0));
		arrow("reverse: ->", sprout::make_reverse_iterator(e), sprout::make_reverse_iterator(b));
		arrow("adjacent_filter: ->", sprout::make_adjacent_filter_iterator(std::less<Pt>(), b, e), sprout::make_adjacent_filter_iterator(std::less<Pt>(), e, e));
		arrow("ptr_index: ->", sprout::make_ptr_index_iterator(b), sprout::make_ptr_index_iterator(b, n));
		arrow("step: ->", sprout::step_iterator<Pt*>(b, 2, e), sprout::step_iterator<Pt*>(e, 2, e));
		arrow("remake: ->", sprout::make_remake_iterator(b, c, c, d, 0, n), sprout::make_remake_iterator(e, d, c, d, -n, 0));
		arrow("value: ->", sprout::value_iterator<Pt const&>(s[n], n), sprout::value_iterator<Pt const&>(s[n], 0));
		{ auto i = sprout::make_move_iterator(b); for (int k = 0; k < n; ++k, ++i) eq("move: ->", &i->x, &b[k].x); }
		sprout::array<Pt, 5> a = {{{1}, {2}, {3}, {4}, {5}}}; typedef sprout::index_iterator<sprout::array<Pt, 5>&, true> II;
		arrow("index: ->", II(a, 0), II(a, n));
	});
}
MC_SECTION(counting_conversion) {
	for (int a = -3; a <= 3; ++a) for (int n = 0; n <= 6; ++n) {
		MC_STATE("counting from " + str(a) + " length " + str(n)); trace();
		typedef sprout::counting_iterator<int> CI; typedef sprout::counting_iterator<long> CL;
		CI b(a), e(a + n); std::vector<long> w; for (int i = 0; i < n; ++i) w.push_back(a + i);
		laws("counting converted", CL(b), CL(e), w); CL y(9), z(9); y = b; z = e; laws("counting assigned", y, z, w);
		for (CI i = b; i != e; ++i) { int const* p = i.operator->(); eq("counting: ->", *p, *i); }
	}
}
typedef sprout::basic_string<char, 8> Str;
MC_SECTION(size_enum_conversion) {
	sequences_upto(4, 3, [](V const& v) {
		MC_STATE("size_enum over strings of lengths " + str(v)); trace();
		std::vector<Str> s; for (int x : v) s.push_back(Str(x + 1, 'a')); s.push_back(Str()); int n = (int)v.size();
		Str* b = s.data(); Str* e = b + n; Str const* cb = b; Str const* ce = e;
		V w, g; for (int i = 0; i < n; ++i) { w.push_back(v[i] + 1); g.push_back(v[i] + 1); g.push_back(7); }
		conv("size_enum", sprout::make_size_enum_iterator(b), sprout::make_size_enum_iterator(e), sprout::make_size_enum_iterator(cb), sprout::make_size_enum_iterator(ce), w);
		conv("size_enum(separated)", sprout::make_size_enum_iterator(b, 7), sprout::make_size_enum_iterator(e, 7), sprout::make_size_enum_iterator(cb, 7), sprout::make_size_enum_iterator(ce, 7), g);
		auto i = sprout::make_size_enum_iterator(b, 7); for (int k = 0; k < 2 * n; ++k, ++i) ok("size_enum: accessors", i.separator_size() == 7 && i.is_separator() == (k % 2 == 1) && i.base() == b + k / 2);
	});
}
MC_SECTION(wave_parameters) {
	static const double F[] = {0.125, 0.5}, A[] = {1, 2.5}, P[] = {0, 0.25, -0.5}, D[] = {0.5, 0.25};
	for (double f : F) for (double a : A) for (double p : P) for (int s = -3; s <= 3; s += 3) {
		MC_STATE("wave frequency " + str(f) + " amplitude " + str(a) + " phase " + str(p) + " from " + str(s)); trace();
		sprout::sawtooth_iterator<double> w(s, f, a, p); sprout::triangle_iterator<double> t(s, f, a, p); sprout::sinusoid_iterator<double> si(s, f, a, p);
		for (int k = 0; k < 3; ++k, ++w, ++t, ++si) {
			ok("sawtooth: parameters", w.index() == s + k && w.frequency() == f && w.amplitude() == a && w.phase() == p);
			ok("triangle: parameters", t.index() == s + k && t.frequency() == f && t.amplitude() == a && t.phase() == p);
			ok("sinusoid: parameters", si.index() == s + k && si.frequency() == f && si.amplitude() == a && si.phase() == p);
		}
		for (double d : D) { sprout::square_iterator<double> q(s, f, a, p, d); ++q; ok("square: parameters", q.index() == s + 1 && q.frequency() == f && q.amplitude() == a && q.phase() == p && q.duty() == d);
			// two levels, a full amplitude apart, that average to zero over a period
			for (int k = 0; k < 9; ++k) ok("square: levels", (double)q[k] == a * 2 * d || (double)q[k] == a * (2 * d - 2)); }
	}
}
#endif
