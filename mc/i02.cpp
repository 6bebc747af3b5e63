// I02: range adaptors - every adaptor alone over every kind of base range, every pipeline of two adaptors, binary adaptors over every pair.
#include "iters.hpp"
#include "preds.hpp"
#include "laws.hpp"
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/range/adaptor.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/range/range_container.hpp>
using namespace mc;
namespace ad = sprout::adaptors;
typedef std::vector<int> V;
struct Tw { constexpr int operator()(int a) const { return a * 2 + 1; } };
struct Cat { constexpr int operator()(int a, int b) const { return a * 10 + b; } };
static int cl(int k, V const& v) { return std::min<int>(k, v.size()); }
#define AD(NAME, KN, EXPR, ...) struct NAME { int k; static const char* name() { return #NAME; } static int K() { return KN; } \
	template<class R> auto operator()(R&& r) const -> decltype(std::forward<R>(r) | (EXPR)) { return std::forward<R>(r) | (EXPR); } \
	V model(V v) const { __VA_ARGS__ } }
// k is the parameter (decoded where an adaptor takes two)
AD(reversed, 1, ad::reversed, return V(v.rbegin(), v.rend()););
AD(dropped, 4, ad::dropped(k), v.erase(v.begin(), v.begin() + cl(k, v)); return v;);
AD(dropped_end, 4, ad::dropped_end(-k), v.resize(v.size() - cl(k, v)); return v;);
AD(taken, 4, ad::taken(k), v.resize(cl(k, v)); return v;);
AD(taken_end, 4, ad::taken_end(-k), v.erase(v.begin(), v.end() - cl(k, v)); return v;);
AD(offset1, 4, ad::offset(k), v.erase(v.begin(), v.begin() + cl(k, v)); return v;);
AD(offset2, 9, ad::offset(k / 3, -(k % 3)), int a = cl(k / 3, v); int e = std::max<int>((int)v.size() - k % 3, a); return V(v.begin() + a, v.begin() + e););
AD(window1, 4, ad::window(k), v.erase(v.begin(), v.begin() + cl(k, v)); return v;);
AD(window2, 9, ad::window(k / 3, k / 3 + k % 3), int a = cl(k / 3, v); int e = cl(k / 3 + k % 3, v); return V(v.begin() + a, v.begin() + e););
AD(steps, 3, ad::steps(k + 1), V r; for (size_t i = 0; i < v.size(); i += k + 1) r.push_back(v[i]); return r;);
AD(steps2, 6, ad::steps(k % 3 + 1, k / 3 + 1), V r; for (size_t i = k / 3 + 1; i < v.size(); i += k % 3 + 1) r.push_back(v[i]); return r;);
AD(transformed, 1, ad::transformed(Tw()), for (int& x : v) x = Tw()(x); return v;);
AD(filtered, 3, ad::filtered(Is(k)), V r; for (int x : v) if (x == k) r.push_back(x); return r;);
AD(filtered_ge, 2, ad::filtered(Ge(k + 1)), V r; for (int x : v) if (x >= k + 1) r.push_back(x); return r;);
AD(adjacent_filtered, 1, ad::adjacent_filtered(Less()), V r; for (size_t i = 0; i < v.size(); ++i) if (!i || v[i - 1] < v[i]) r.push_back(v[i]); return r;);
AD(removed, 3, ad::removed(k), V r; for (int x : v) if (x != k) r.push_back(x); return r;);
AD(removed_if, 2, ad::removed_if(Ge(k + 1)), V r; for (int x : v) if (!(x >= k + 1)) r.push_back(x); return r;);
AD(replaced, 3, ad::replaced(k, 7), for (int& x : v) if (x == k) x = 7; return v;);
AD(replaced_if, 2, ad::replaced_if(Ge(k + 1), 7), for (int& x : v) if (x >= k + 1) x = 7; return v;);
AD(uniqued, 1, ad::uniqued, v.erase(std::unique(v.begin(), v.end()), v.end()); return v;);
AD(uniqued_par, 1, ad::uniqued(Par()), V r; for (size_t i = 0; i < v.size(); ++i) if (!i || !Par()(v[i - 1], v[i])) r.push_back(v[i]); return r;);
AD(clamped, 4, ad::clamped(k / 2, 1 + k % 2), for (int& x : v) x = std::min(std::max(x, k / 2), 1 + k % 2); return v;);
AD(clamped_gt, 4, ad::clamped(1 + k % 2, k / 2, Greater()), for (int& x : v) x = std::min(std::max(x, k / 2), 1 + k % 2); return v;);
AD(indexed, 1, ad::indexed, return v;);
AD(indexed_from, 1, ad::indexed(4), return v;);
AD(valued, 1, ad::valued(9), return v;);
AD(moved, 1, ad::moved, return v;);
AD(filled, 1, ad::filled(6), for (int& x : v) x = 6; return v;);
AD(counted, 3, ad::counting(k, k + 2), V r; for (int i = 0; i < (int)v.size() && i < 2; ++i) r.push_back(k + i); return r;);
AD(counted_from, 3, ad::counting(k), V r; for (int i = 0; i < (int)v.size(); ++i) r.push_back(k + i); return r;);
AD(blanked, 4, ad::blanked(k, 5), V r(cl(k, v), 5); return r;);
AD(sized2, 1, ad::sized<2>(), v.resize(cl(2, v)); return v;);
AD(piped2, 3, ad::piped(ad::reversed, ad::dropped(k)), v = V(v.rbegin(), v.rend()); v.erase(v.begin(), v.begin() + cl(k, v)); return v;);
AD(copied_view, 1, ad::copied, return v;);

struct Names { const char *len, *val, *size, *empty, *front, *back, *idx, *at, *atthrow, *rev, *cont, *sz2;
	explicit Names(std::string const& s) { len = intern(s + ": number of elements"); val = intern(s + ": value"); size = intern(s + ": size()"); empty = intern(s + ": empty()"); front = intern(s + ": front()"); back = intern(s + ": back()"); idx = intern(s + ": operator[]"); at = intern(s + ": at()"); atthrow = intern(s + ": at(size()) throws out_of_range"); rev = intern(s + ": backward walk"); cont = intern(s + ": sprout::begin/size/empty/front/back"); sz2 = intern(s + ": distance"); } };
template<class R, class I> void backward(Names const& N, R const&, I b, I e, V const& w, std::bidirectional_iterator_tag) { size_t k = w.size(); while (e != b && k) { --e; --k; eq(N.rev, (int)*e, w[k]); } eq(N.rev, k, (size_t)0); }
template<class R, class I> void backward(Names const&, R const&, I, I, V const&, std::input_iterator_tag) {}
template<class R> void look(Names const& N, R const& r, V const& w) {
	size_t n = 0;
	for (auto i = r.begin(); i != r.end() && n <= w.size() + 2; ++i, ++n) if (n < w.size()) eq(N.val, (int)*i, w[n]);
	if (!eq(N.len, n, w.size())) return;
	eq(N.size, (size_t)r.size(), w.size());
	eq(N.empty, r.empty(), w.empty());
	eq(N.cont, (size_t)sprout::size(r), w.size()); eq(N.cont, sprout::empty(r), w.empty());
	if (w.size()) {
		eq(N.front, (int)r.front(), w.front()); eq(N.back, (int)r.back(), w.back());
		eq(N.cont, (int)sprout::front(r), w.front()); eq(N.cont, (int)sprout::back(r), w.back());
	}
	for (size_t i = 0; i < w.size(); ++i) { eq(N.idx, (int)r[i], w[i]); eq(N.at, (int)r.at(i), w[i]); eq(N.cont, (int)*sprout::next(sprout::begin(r), i), w[i]); }
	eq(N.sz2, (std::ptrdiff_t)sprout::distance(r.begin(), r.end()), (std::ptrdiff_t)w.size());
	backward(N, r, r.begin(), r.end(), w, typename std::iterator_traits<typename R::iterator>::iterator_category());
}
template<class R> void throws(Names const& N, R const& r, size_t n) { bool t = false; try { (void)r.at(n); } catch (std::out_of_range const&) { t = true; } catch (...) {} eq(N.atthrow, t, true); }

// --- base ranges
template<class F> void base_ptr(V const& v, F const& f) { std::vector<int> b(v); b.insert(b.begin(), 77); b.push_back(88); auto r = sprout::range::make_ptr_range((int const*)b.data() + 1, (std::ptrdiff_t)v.size()); f(r); }
template<class F> void base_sub(V const& v, F const& f) { sprout::array<int, 8> a; a.fill(55); for (size_t i = 0; i < v.size(); ++i) a[i + 2] = v[i]; auto r = sprout::sub(a, 2, 2 + (int)v.size()); f(r); }
template<size_t N, class F> void base_arr(V const& v, F const& f) { if (v.size() != N) return; sprout::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i]; f(a); }
template<size_t N, class F> void base_carr(V const& v, F const& f) { if (v.size() != N) return; sprout::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i]; sprout::array<int, N> const& c = a; f(c); }
template<size_t N, class F> void base_raw(V const& v, F const& f) { if (v.size() != N) return; int a[N]; for (size_t i = 0; i < N; ++i) a[i] = v[i]; f(a); }

template<class A> struct One {
	A a; V const* w; Names const* N; bool deep;
	template<class R> void operator()(R& base) const { check(a(base)); }
	template<class R> void check(R const& r) const { look(*N, r, *w); throws(*N, r, w->size()); if (deep) laws(A::name(), r.begin(), r.end(), *w); }
};
template<class A> void single(int mode) {
	static Names N(A::name());
	for (int k = 0; k < A::K(); ++k) {
		A a = {k};
		sequences_upto(thorough() ? 5 : 4, 3, [&](V const& v) {
			MC_STATE(std::string(A::name()) + "(" + std::to_string(k) + ") over base kind " + std::to_string(mode) + " " + str(v)); trace();
			V w = a.model(v);
			One<A> o = {a, &w, &N, true};
			if (mode == 0) base_ptr(v, o);
			else if (mode == 1) base_sub(v, o);
			else if (mode == 2) { base_arr<0>(v, o); base_arr<1>(v, o); base_arr<3>(v, o); }
			else if (mode == 3) { base_carr<2>(v, o); base_carr<4>(v, o); }
			else { base_raw<1>(v, o); base_raw<3>(v, o); }
		});
	}
}
template<class A, class B> void pairad() {
	static Names N(std::string(A::name()) + " | " + B::name());
	for (int k = 0; k < A::K(); ++k) for (int j = 0; j < B::K(); ++j) {
		A a = {k}; B b = {j};
		sequences_upto(thorough() ? 4 : 3, 3, [&](V const& v) {
			MC_STATE(std::string(A::name()) + "(" + std::to_string(k) + ") | " + B::name() + "(" + std::to_string(j) + ") over " + str(v)); trace();
			V w = b.model(a.model(v));
			base_ptr(v, [&](decltype(sprout::range::make_ptr_range((int const*)0, (std::ptrdiff_t)0)) const& r) { look(N, b(a(r)), w); });
		});
	}
}
template<class...> struct L {};
template<class A, class... Bs> void rowad(L<Bs...>) { int d[] = {(pairad<A, Bs>(), 0)...}; (void)d; }
template<class... As> void singles(L<As...>, int mode) { int d[] = {(single<As>(mode), 0)...}; (void)d; }
#define SINGLES(tag, ...) MC_SECTION(tag##_ptr) { singles(L<__VA_ARGS__>(), 0); } MC_SECTION(tag##_sub) { singles(L<__VA_ARGS__>(), 1); } MC_SECTION(tag##_array) { singles(L<__VA_ARGS__>(), 2); } MC_SECTION(tag##_carray) { singles(L<__VA_ARGS__>(), 3); } MC_SECTION(tag##_raw) { singles(L<__VA_ARGS__>(), 4); }
typedef L<reversed, dropped, dropped_end, taken, taken_end, window2, steps, transformed, filtered_ge, uniqued, replaced, removed, clamped, indexed> PairSet;
typedef L<dropped, taken, window2, steps, transformed, filtered_ge, uniqued, replaced, removed, clamped, indexed> ForwardSet;
#if PART == 1
SINGLES(s1, reversed, dropped, dropped_end, taken, taken_end, offset1, offset2, window1, window2)
#elif PART == 2
SINGLES(s2, steps, steps2, transformed, filtered, filtered_ge, adjacent_filtered, removed, removed_if)
#elif PART == 3
SINGLES(s3, replaced, replaced_if, uniqued, uniqued_par, clamped, clamped_gt, indexed, indexed_from, valued)
#elif PART == 4
SINGLES(s4, filled, counted, counted_from, blanked, sized2, piped2, copied_view)
template<int M> struct Mv { V const* w; template<class R> void operator()(R& b) const { auto r = b | ad::moved; static Names N("moved"); look(N, r, *w); laws("moved", r.begin(), r.end(), *w); } };
MC_SECTION(moved_) { sequences_upto(4, 3, [](V const& v) { MC_STATE("moved " + str(v)); trace(); Mv<0> m = {&v}; base_sub(v, m); base_arr<2>(v, m); base_raw<3>(v, m); }); }
MC_SECTION(index_values) {
	sequences_upto(4, 3, [](V const& v) { MC_STATE("indexed " + str(v)); trace();
		base_ptr(v, [&](decltype(sprout::range::make_ptr_range((int const*)0, (std::ptrdiff_t)0)) const& b) {
			auto r = b | ad::indexed; auto q = b | ad::indexed(4); auto o = b | ad::outdirected;
			int n = 0; for (auto i = r.begin(); i != r.end(); ++i, ++n) eq("indexed: index()", (int)i.index(), n); eq("indexed: length", n, (int)v.size());
			n = 0; for (auto i = q.begin(); i != q.end(); ++i, ++n) eq("indexed(4): index()", (int)i.index(), n + 4); eq("indexed(4): length", n, (int)v.size());
			n = 0; for (auto i = o.begin(); i != o.end(); ++i, ++n) { eq("outdirected: element", **i, v[n]); ok("outdirected: iterator", *i == sprout::next(b.begin(), n)); } eq("outdirected: length", n, (int)v.size());
			auto e = b | ad::valued(9); for (auto i = e.begin(); i != e.end(); ++i) eq("valued: get()", i.get(), 9);
		});
	});
	for (int a = -2; a <= 3; ++a) for (int b = a; b <= 4; ++b) { MC_STATE("counting(" + str(a) + "," + str(b) + ")"); V w; for (int i = a; i < b; ++i) w.push_back(i); static Names N("counting"); look(N, ad::counting(a, b), w); throws(N, ad::counting(a, b), w.size()); }
	for (int n = 0; n <= 4; ++n) { MC_STATE("blanked(" + str(n) + ")"); V w(n, 5); static Names N("blanked standalone"); look(N, ad::blanked(n, 5), w); }
}
template<class R> std::string text(R const& r) { std::string s; for (auto i = r.begin(); i != r.end(); ++i) s += (char)*i; return s; }
MC_SECTION(chars) {
	for (int c = 0; c < 256; ++c) for (int d = 0; d < 3; ++d) {
		sprout::basic_string<char, 4> s = sprout::to_string("ab"); s[0] = (char)c; s[1] = "aZ9"[d];
		MC_STATE("to_lower/upper code " + str(c)); trace();
		std::string L, U; for (char ch : std::string(s.begin(), s.end())) { L += ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; U += ch >= 'a' && ch <= 'z' ? ch - 32 : ch; }
		eq("to_lower", text(s | ad::to_lower), L); eq("to_upper", text(s | ad::to_upper), U);
		eq("to_upper | to_lower", text(s | ad::to_upper | ad::to_lower), L);
	}
	sequences_upto(3, 2, [](V const& v) {
		for (int sep = 0; sep < 4; ++sep) for (int om = 0; om < 2; ++om) {
			MC_STATE("size_enumed(" + str(sep) + "," + str(om) + ") over " + str(v)); trace();
			std::vector<std::string> words; sprout::array<sprout::basic_string<char, 4>, 3> a;
			for (size_t i = 0; i < v.size(); ++i) { a[i] = v[i] ? sprout::to_string("x") : sprout::to_string("yz"); }
			auto r = sprout::range::make_ptr_range((sprout::basic_string<char, 4> const*)a.data(), (std::ptrdiff_t)v.size()) | ad::size_enumed((std::size_t)sep, om != 0);
			V w; for (size_t i = 0; i < v.size(); ++i) { w.push_back(v[i] ? 1 : 2); if (!om || i + 1 < v.size()) w.push_back(sep); }
			static Names N("size_enumed(sep)"); look(N, r, w); laws("size_enumed(sep)", r.begin(), r.end(), w);
		}
	});
}
#elif PART == 5
// binary adaptors
template<class R, class S> void binary(R const& a, S const& b, V const& v, V const& w) {
	bool sv = std::is_sorted(v.begin(), v.end()), sw = std::is_sorted(w.begin(), w.end());
	#define BIN(nm, expr, model) { static Names N(nm); V z = model; look(N, expr, z); auto r = expr; laws(nm, r.begin(), r.end(), z); }
	V j(v); j.insert(j.end(), w.begin(), w.end());
	BIN("jointed", a | ad::jointed(b), j)
	if (v.size() == w.size()) {
		V al, t; for (size_t i = 0; i < v.size(); ++i) { al.push_back(v[i]); al.push_back(w[i]); t.push_back(Cat()(v[i], w[i])); }
		BIN("alternated", a | ad::alternated(b), al)
		BIN("transformed(range, f)", a | ad::transformed(b, Cat()), t)
	}
	if (sv && sw) {
		V m, u, i, d, s; std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(m)); std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(u));
		std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(i)); std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(d)); std::set_symmetric_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(s));
		BIN("merged", a | ad::merged(b), m) BIN("set_union", a | ad::set_union(b), u) BIN("set_intersection", a | ad::set_intersection(b), i) BIN("set_difference", a | ad::set_difference(b), d) BIN("set_symmetric_difference", a | ad::set_symmetric_difference(b), s)
		BIN("merged(less)", a | ad::merged(b, Less()), m) BIN("set_union(less)", a | ad::set_union(b, Less()), u) BIN("set_intersection(less)", a | ad::set_intersection(b, Less()), i) BIN("set_difference(less)", a | ad::set_difference(b, Less()), d) BIN("set_symmetric_difference(less)", a | ad::set_symmetric_difference(b, Less()), s)
	}
	bool gv = std::is_sorted(v.rbegin(), v.rend()), gw = std::is_sorted(w.rbegin(), w.rend());
	if (gv && gw) {
		Greater g; V m, u, i, d, s; std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(m), g); std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(u), g);
		std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(i), g); std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(d), g); std::set_symmetric_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(s), g);
		BIN("merged(greater)", a | ad::merged(b, g), m) BIN("set_union(greater)", a | ad::set_union(b, g), u) BIN("set_intersection(greater)", a | ad::set_intersection(b, g), i) BIN("set_difference(greater)", a | ad::set_difference(b, g), d) BIN("set_symmetric_difference(greater)", a | ad::set_symmetric_difference(b, g), s)
	}
}
typedef decltype(sprout::range::make_ptr_range((int const*)0, (std::ptrdiff_t)0)) PR;
MC_SECTION(binary_ptr) { sequences_upto(thorough() ? 4 : 3, 3, [](V const& v) { sequences_upto(3, 3, [&](V const& w) { MC_STATE("binary " + str(v) + " " + str(w)); trace(); base_ptr(v, [&](PR const& a) { base_ptr(w, [&](PR const& b) { binary(a, b, v, w); }); }); }); }); }
MC_SECTION(binary_mixed) { sequences_upto(thorough() ? 4 : 3, 2, [](V const& v) { sequences_upto(3, 2, [&](V const& w) { MC_STATE("binary (window with adapted range) " + str(v) + " " + str(w)); trace(); V rv(v.rbegin(), v.rend()); sprout::array<int, 8> s; s.fill(55); for (size_t i = 0; i < w.size(); ++i) s[i + 1] = w[i]; auto const sb = sprout::sub(s, 1, 1 + (int)w.size()); base_ptr(rv, [&](PR const& a) { binary(a | ad::reversed, sb, v, w); }); }); }); }
#elif PART == 6
// adaptors applied to a part of the range, and copies
template<class R> void part(R const& a, V const& v) {
	for (int k = 0; k <= (int)v.size() + 1; ++k) {
		int c = cl(k, v), n = (int)v.size();
		auto rev = [&](int f, int l) { V z(v); std::reverse(z.begin() + f, z.begin() + l); return z; };
		auto drop1 = [&](int f, int l) { V z(v); if (f < l) z.erase(z.begin() + f); return z; };
		auto rep = [&](int f, int l) { V z(v); std::replace(z.begin() + f, z.begin() + l, 1, 7); return z; };
		#define PARTS(nm, expr_rev, expr_drop, expr_rep, f, l) { static Names N(nm); look(N, a | expr_rev, rev(f, l)); look(N, a | expr_drop, drop1(f, l)); look(N, a | expr_rep, rep(f, l)); }
		PARTS("adapted_dropped", ad::adapted_dropped(ad::reversed, k), ad::adapted_dropped(ad::dropped(1), k), ad::adapted_dropped(ad::replaced(1, 7), k), c, n)
		PARTS("adapted_taken", ad::adapted_taken(ad::reversed, k), ad::adapted_taken(ad::dropped(1), k), ad::adapted_taken(ad::replaced(1, 7), k), 0, c)
		PARTS("adapted_dropped_end", ad::adapted_dropped_end(ad::reversed, -k), ad::adapted_dropped_end(ad::dropped(1), -k), ad::adapted_dropped_end(ad::replaced(1, 7), -k), 0, n - c)
		PARTS("adapted_taken_end", ad::adapted_taken_end(ad::reversed, -k), ad::adapted_taken_end(ad::dropped(1), -k), ad::adapted_taken_end(ad::replaced(1, 7), -k), n - c, n)
		PARTS("adapted_offset", ad::adapted_offset(ad::reversed, k), ad::adapted_offset(ad::dropped(1), k), ad::adapted_offset(ad::replaced(1, 7), k), c, n)
		PARTS("adapted_window", ad::adapted_window(ad::reversed, k), ad::adapted_window(ad::dropped(1), k), ad::adapted_window(ad::replaced(1, 7), k), c, n)
		for (int j = k; j <= n + 1; ++j) PARTS("adapted_window(first, last)", ad::adapted_window(ad::reversed, k, j), ad::adapted_window(ad::dropped(1), k, j), ad::adapted_window(ad::replaced(1, 7), k, j), c, cl(j, v))
		for (int j = 0; j + k <= n; ++j) PARTS("adapted_offset(from begin, from end)", ad::adapted_offset(ad::reversed, k, -j), ad::adapted_offset(ad::dropped(1), k, -j), ad::adapted_offset(ad::replaced(1, 7), k, -j), k, n - j)
	}
}
typedef decltype(sprout::range::make_ptr_range((int const*)0, (std::ptrdiff_t)0)) PR;
MC_SECTION(parts) { sequences_upto(thorough() ? 5 : 4, 3, [](V const& v) { MC_STATE("adapted part of " + str(v)); trace(); base_ptr(v, [&](PR const& a) { part(a, v); }); }); }
template<size_t N> void copies_n() {
	sequences(N, 3, [](V const& v) {
		MC_STATE("copies of adapted " + str(v)); trace();
		sprout::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i];
		sprout::array<int, N> const keep = a;
		V rv(v.rbegin(), v.rend());
		sprout::array<int, N> c = a | ad::reversed | ad::copied; eq("conversion to array", V(c.begin(), c.end()), rv);
		sprout::array<int, N + 2> t; t.fill(9); auto r = a | ad::reversed | ad::copied(t); V w(rv); w.push_back(9); w.push_back(9);
		eq("copied(result)", V(r.begin(), r.end()), w);
		sprout::array<int, N> d = a | ad::transformed(Tw()) | ad::copied; V tv(v); for (int& x : tv) x = Tw()(x); eq("conversion of a transformed range", V(d.begin(), d.end()), tv);
		auto e = a | ad::deep_copied; eq("deep_copied", V(e.begin(), e.end()), v);
		auto f = a | ad::reversed | ad::deep_copied; eq("deep_copied of an adapted range", V(f.begin(), f.end()), rv);
		for (auto& x : e) x = 40; for (auto& x : f) x = 41; for (auto& x : c) x = 42;
		ok("changing a copy leaves the source", a == keep);
		auto z = a | ad::reversed; for (size_t i = 0; i < N; ++i) z[i] = 20 + (int)i;
		for (size_t i = 0; i < N; ++i) eq("assignment through an adapted range", a[N - 1 - i], 20 + (int)i);
		auto m = a | ad::window(1, 2) ; int q = 0; for (auto& x : m) { x = 90; ++q; } eq("window writes", q, 1); eq("window writes one element", a[1], 90); eq("window leaves the others", a[0], 20 + (int)N - 1);
	});
}
MC_SECTION(copies) { copies_n<2>(); copies_n<3>(); copies_n<4>(); }
#else
#define ROW(A) MC_SECTION(pair_##A) { rowad<A>(PairSet()); }
#if PART == 7
ROW(reversed) ROW(dropped)
#elif PART == 8
ROW(dropped_end) ROW(taken)
#elif PART == 9
ROW(taken_end) ROW(window2)
#elif PART == 10
ROW(steps) ROW(transformed)
#elif PART == 11
ROW(filtered_ge) MC_SECTION(pair_uniqued) { rowad<uniqued>(ForwardSet()); }
#elif PART == 12
ROW(replaced) ROW(removed)
#elif PART == 13
ROW(clamped) ROW(indexed)
#endif
#endif
