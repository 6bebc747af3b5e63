// S01: array, pit, sized_pit, sub_array, C arrays: access paths, comparisons, views of views, operation histories.
#include "mc.hpp"
#include "preds.hpp"
#include "laws.hpp"
#include <sprout/array.hpp>
#include <sprout/array/nested_array.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/functional/hash.hpp>
#include <array>
using namespace mc;
typedef std::vector<int> V;
template<class C> V items(C const& c) { V r; for (auto i = c.begin(); i != c.end() && r.size() < 64; ++i) r.push_back(*i); return r; }
template<class F> bool throws_oor(F const& f) { try { f(); } catch (std::out_of_range const&) { return true; } catch (...) {} return false; }
// every generic access function against the expected sequence; R is a container (const or not) or a C array
template<class R> void generic(R& r, V const& w) {
	size_t n = w.size();
	eq("size", (size_t)sprout::size(r), n);
	eq("empty", (bool)sprout::empty(r), n == 0);
	eq("distance(begin, end)", (size_t)sprout::distance(sprout::begin(r), sprout::end(r)), n);
	eq("distance(cbegin, cend)", (size_t)sprout::distance(sprout::cbegin(r), sprout::cend(r)), n);
	laws("begin/end", sprout::begin(r), sprout::end(r), w);
	laws("cbegin/cend", sprout::cbegin(r), sprout::cend(r), w);
	for (size_t i = 0; i < n; ++i) {
		eq("subscript_at", (int)sprout::subscript_at(r, i), w[i]); eq("at", (int)sprout::at(r, i), w[i]); eq("nth", (int)*sprout::nth(r, i), w[i]);
		eq("csubscript_at", (int)sprout::csubscript_at(r, i), w[i]); eq("cat", (int)sprout::cat(r, i), w[i]); eq("cnth", (int)*sprout::cnth(r, i), w[i]);
		eq("index_of(nth)", (size_t)sprout::index_of(r, sprout::nth(r, i)), i); eq("cindex_of", (size_t)sprout::cindex_of(r, sprout::cnth(r, i)), i);
		eq("index_of(begin + i)", (size_t)sprout::index_of(r, sprout::next(sprout::begin(r), i)), i);
		ok("nth addresses the element", &*sprout::nth(r, i) == &sprout::subscript_at(r, i));
	}
	if (n) { eq("front", (int)sprout::front(r), w[0]); eq("back", (int)sprout::back(r), w[n - 1]); eq("cfront", (int)sprout::cfront(r), w[0]); eq("cback", (int)sprout::cback(r), w[n - 1]); }
}
template<class R> void generic_throw(R& r, size_t n) {
	for (size_t i = n; i < n + 3; ++i) { ok("at() beyond the end throws out_of_range", throws_oor([&] { (void)sprout::at(r, i); })); ok("nth() beyond the end throws out_of_range", throws_oor([&] { (void)sprout::nth(r, i); })); }
	ok("at(max) throws out_of_range", throws_oor([&] { (void)sprout::at(r, (size_t)-1); }));
}
template<class R> void generic_data(R& r, V const& w) { for (size_t i = 0; i < w.size(); ++i) { eq("data", (int)sprout::data(r)[i], w[i]); eq("cdata", (int)sprout::cdata(r)[i], w[i]); } }
// members
template<class R> void members(R& r, V const& w) {
	size_t n = w.size();
	eq("size()", (size_t)r.size(), n); eq("empty()", r.empty(), n == 0);
	eq("iteration", items(r), w);
	{ V b; for (auto i = r.cbegin(); i != r.cend(); ++i) b.push_back(*i); eq("cbegin()/cend()", b, w); }
	for (size_t i = 0; i < n; ++i) { eq("operator[]", (int)r[i], w[i]); eq("at()", (int)r.at(i), w[i]); }
	if (n) { eq("front()", (int)r.front(), w[0]); eq("back()", (int)r.back(), w[n - 1]); }
	ok("at(size()) throws out_of_range", throws_oor([&] { (void)r.at(n); })); ok("at(size() + 1) throws out_of_range", throws_oor([&] { (void)r.at(n + 1); })); ok("at(-1) throws out_of_range", throws_oor([&] { (void)r.at((size_t)-1); }));
	for (size_t i = 0; i < n + 2; ++i) eq("rangecheck()", throws_oor([&] { r.rangecheck(i); }), i >= n);
}
template<class R> void members_rev(R& r, V const& w) { V b, c; for (auto i = r.rbegin(); i != r.rend(); ++i) b.push_back(*i); for (auto i = r.crbegin(); i != r.crend(); ++i) c.push_back(*i); V e(w.rbegin(), w.rend()); eq("rbegin()/rend()", b, e); eq("crbegin()/crend()", c, e); }
template<class R> void members_nth(R& r, V const& w) { for (size_t i = 0; i < w.size(); ++i) { eq("nth()", (int)*r.nth(i), w[i]); eq("index_of()", (size_t)r.index_of(r.nth(i)), i); eq("data()", r.data()[i], w[i]); eq("c_array()", r.c_array()[i], w[i]); ok("data() addresses the elements", r.data() + i == &r[i]); } for (size_t i = w.size(); i < w.size() + 2; ++i) ok("nth() beyond throws", throws_oor([&] { (void)r.nth(i); })); }
template<class A, class B> void compare(A const& a, B const& b, V const& v, V const& w) {
	eq("==", a == b, v == w); eq("!=", a != b, v != w); eq("<", a < b, v < w); eq(">", a > b, v > w); eq("<=", a <= b, v <= w); eq(">=", a >= b, v >= w);
}
template<size_t N> sprout::array<int, N> arr(V const& v) { sprout::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }
template<size_t N> void arrays() {
	sequences(N, 3, [](V const& v) {
		MC_STATE("array " + str(v)); trace();
		auto a = arr<N>(v); auto const& c = a;
		generic(a, v); generic(c, v); generic_throw(a, N); generic_throw(c, N); generic_data(a, v); generic_data(c, v);
		members(a, v); members(c, v); members_rev(a, v); members_rev(c, v); members_nth(a, v); members_nth(c, v);
		eq("max_size()", (size_t)a.max_size(), N);
		for (size_t i = 0; i < N; ++i) { auto b = a; b[i] = 8; V w(v); w[i] = 8; eq("write by subscript", items(b), w); b = a; b.at(i) = 8; eq("write by at()", items(b), w); b = a; *b.nth(i) = 8; eq("write by nth()", items(b), w); b = a; b.data()[i] = 8; eq("write by data()", items(b), w); b = a; *(b.begin() + i) = 8; eq("write by iterator", items(b), w); b = a; *(b.rbegin() + (N - 1 - i)) = 8; eq("write by reverse iterator", items(b), w); }
		{ auto b = a; b.fill(8); eq("fill", items(b), V(N, 8)); auto d = c.fill(9); eq("fill (returning)", items(d), V(N, 9)); eq("fill (returning) leaves the source", items(a), v); b = a; b.assign(7); eq("assign", items(b), V(N, 7)); eq("assign (returning)", items(c.assign(6)), V(N, 6)); }
		{ std::array<int, N> s = a; eq("conversion to std::array", V(s.begin(), s.end()), v); }
		{ sprout::array<long, N> l; l.fill(99); l = a; bool same = true; for (size_t i = 0; i < N; ++i) same &= l[i] == v[i]; ok("assignment from another element type", same); sprout::array<int, N> m; m.fill(3); m = std::move(l); eq("move assignment from another element type", items(m), v); }
		eq("deep_copy", items(sprout::deep_copy(a)), v);
		sequences(N, 3, [&](V const& w) {
			auto b = arr<N>(w); compare(c, (sprout::array<int, N> const&)b, v, w);
			if (v == w) eq("equal arrays hash equally", sprout::hash_value(a), sprout::hash_value(b));
			auto x = a, y = b; x.swap(y); eq("swap member (left)", items(x), w); eq("swap member (right)", items(y), v); sprout::swap(x, y); eq("swap (left)", items(x), v); eq("swap (right)", items(y), w);
			x = y; eq("copy assignment", items(x), w);
		});
	});
}
template<size_t I, size_t N> struct Tup { static void go(sprout::array<int, N>& a, V const& v) { Tup<I - 1, N>::go(a, v); auto const& c = a; eq("tuple get", (int)sprout::tuples::get<I - 1>(a), v[I - 1]); eq("tuple get const", (int)sprout::tuples::get<I - 1>(c), v[I - 1]); eq("tuple get rvalue", (int)sprout::tuples::get<I - 1>(std::move(a)), v[I - 1]); ok("tuple get addresses the element", &sprout::tuples::get<I - 1>(a) == &a[I - 1]); static_assert(sprout::tuples::tuple_size<sprout::array<int, N> >::value == N, ""); } };
template<size_t N> struct Tup<0, N> { static void go(sprout::array<int, N>&, V const&) {} };
template<size_t N> void tuples() { sequences(N, 3, [](V const& v) { MC_STATE("tuple access to array " + str(v)); trace(); auto a = arr<N>(v); Tup<N, N>::go(a, v); }); }
MC_SECTION(array_012) { arrays<0>(); arrays<1>(); arrays<2>(); tuples<1>(); tuples<2>(); tuples<3>(); tuples<4>(); }
MC_SECTION(array_3) { arrays<3>(); }
MC_SECTION(array_4) { arrays<4>(); }
MC_SECTION(makers) {
	for (int a = -1; a < 2; ++a) for (int b = -1; b < 2; ++b) for (int c = -1; c < 2; ++c) {
		MC_STATE("make_array " + str(V{a, b, c})); trace(); V w{a, b, c};
		eq("make_array<int>", items(sprout::make_array<int>(a, b, c)), w); eq("make_array", items(sprout::make_array(a, b, c)), w); eq("make_array<int, 5>", items(sprout::make_array<int, 5>(a, b, c)), (V{a, b, c, 0, 0})); eq("make_common_array", items(sprout::make_common_array(a, b, c)), w);
		eq("make_array_without_narrowing", items(sprout::make_array_without_narrowing<int>(a, b, c)), w); eq("make_array<3>", items(sprout::make_array<3>(a, b, c)), w);
		int d[3] = {a, b, c}; int const e[3] = {a, b, c}; std::array<int, 3> f = {{a, b, c}}; sprout::array<int, 3> g = {{a, b, c}};
		eq("to_array(C array)", items(sprout::to_array(d)), w); eq("to_array(const C array)", items(sprout::to_array(e)), w); eq("to_array(std::array)", items(sprout::to_array(f)), w); eq("to_array(array)", items(sprout::to_array(g)), w);
		static_assert(std::is_same<decltype(sprout::to_array(e)), sprout::array<int, 3> >::value, "");
	}
	static_assert(std::is_same<decltype(sprout::make_array(1, 2L)), sprout::array<long, 2> >::value, "");
}
template<size_t N> void carrays() {
	sequences(N, 3, [](V const& v) { MC_STATE("C array " + str(v)); trace(); int a[N]; for (size_t i = 0; i < N; ++i) a[i] = v[i]; int const (&c)[N] = a; generic(a, v); generic(c, v); generic_data(a, v); generic_data(c, v); });
}
MC_SECTION(c_array) { carrays<1>(); carrays<2>(); carrays<3>(); carrays<4>(); }

// --- views
template<class S> void view_checks(S& s, V const& w) {
	S const& c = s;
	generic(s, w); generic(c, w); generic_throw(s, w.size()); generic_throw(c, w.size()); members(s, w); members(c, w); members_nth(s, w); members_nth(c, w);
}
static V cut(V const& v, int f, int l) { return V(v.begin() + f, v.begin() + l); }
#define WHOLE(f_, x_) eq(#f_ "(" #x_ ")", items(sprout::f_(x_)), w)
template<size_t N> void views() {
	sequences(N, 2, [](V const& bits) {
		V v(bits); for (size_t i = 0; i < N; ++i) v[i] += 2 * (int)i;
		auto a = arr<N>(v); auto const& ca = a;
		for (int f = 0; f <= (int)N; ++f) for (int l = f; l <= (int)N; ++l) {
			MC_STATE("window [" + str(f) + "," + str(l) + ") of " + str(v)); trace();
			V w = cut(v, f, l);
			auto s = sprout::sub(a, f, l); view_checks(s, w);
			auto cs = sprout::csub(a, f, l); view_checks(cs, w);
			auto k = sprout::sub_copy(a, f, l); view_checks(k, w);
			eq("sub(iterators)", items(sprout::sub(a, a.begin() + f, a.begin() + l)), w); eq("sub(const, iterators)", items(sprout::sub(ca, ca.begin() + f, ca.begin() + l)), w); eq("sub_copy(iterators)", items(sprout::sub_copy(a, a.begin() + f, a.begin() + l)), w); eq("csub(iterators)", items(sprout::csub(a, ca.begin() + f, ca.begin() + l)), w);
			eq("sub_window", items(sprout::sub_window(a, f, l)), w); eq("csub_window", items(sprout::csub_window(a, f, l)), w); eq("sub_window_copy", items(sprout::sub_window_copy(a, f, l)), w);
			eq("sub_offset", items(sprout::sub_offset(a, f, l - (int)N)), w); eq("csub_offset", items(sprout::csub_offset(a, f, l - (int)N)), w); eq("sub_offset_copy", items(sprout::sub_offset_copy(a, f, l - (int)N)), w); eq("sub_offset(const)", items(sprout::sub_offset(ca, f, l - (int)N)), w);
			if (l == (int)N) { eq("sub(first)", items(sprout::sub(a, f)), w); eq("sub_window(first)", items(sprout::sub_window(a, f)), w); eq("csub_window(first)", items(sprout::csub_window(a, f)), w); eq("sub_window_copy(first)", items(sprout::sub_window_copy(a, f)), w); eq("sub(iterator)", items(sprout::sub(a, a.begin() + f)), w); }
			eq("sub(const)", items(sprout::sub(ca, f, l)), w); eq("sub_window(const)", items(sprout::sub_window(ca, f, l)), w); eq("csub(const, iterators)", items(sprout::csub(ca, ca.begin() + f, ca.begin() + l)), w);
			if (l == (int)N) { eq("sub(const, first)", items(sprout::sub(ca, f)), w); eq("sub(const, iterator)", items(sprout::sub(ca, ca.begin() + f)), w); eq("csub(first)", items(sprout::csub(a, f)), w); eq("csub(iterator)", items(sprout::csub(a, ca.begin() + f)), w); eq("sub_copy(first)", items(sprout::sub_copy(a, f)), w); eq("sub_copy(iterator)", items(sprout::sub_copy(a, ca.begin() + f)), w); eq("sub_window(const, first)", items(sprout::sub_window(ca, f)), w);
				eq("sub_offset(first)", items(sprout::sub_offset(a, f)), w); eq("sub_offset(const, first)", items(sprout::sub_offset(ca, f)), w); eq("csub_offset(first)", items(sprout::csub_offset(a, f)), w); eq("sub_offset_copy(first)", items(sprout::sub_offset_copy(a, f)), w);
				if (f == 0) { WHOLE(sub, a); WHOLE(sub, ca); WHOLE(csub, a); WHOLE(sub_copy, a); WHOLE(sub_window, a); WHOLE(sub_window, ca); WHOLE(csub_window, a); WHOLE(sub_window_copy, a); WHOLE(sub_offset, a); WHOLE(sub_offset, ca); WHOLE(csub_offset, a); WHOLE(sub_offset_copy, a); } }
			WHOLE(sub, s); WHOLE(csub, s); WHOLE(sub_copy, s); WHOLE(sub_offset, s); WHOLE(csub_offset, s); WHOLE(sub_offset_copy, s); WHOLE(sub, k); WHOLE(csub, k); WHOLE(sub_copy, k);
			WHOLE(sub_window, s); WHOLE(csub_window, s); WHOLE(sub_window_copy, s);
			eq("to_first()", (int)s.to_first(), f); eq("to_last()", (int)s.to_last(), l); eq("from_begin()", (int)s.from_begin(), f); eq("from_end()", (int)s.from_end(), l - (int)N);
			ok("get_array()", &s.get_array() == &a); ok("get_internal()", &s.get_internal() == &a); ok("internal", &sprout::get_internal(s) == &a);
			for (int g = 0; g <= l - f; ++g) for (int h = g; h <= l - f; ++h) {
				V z = cut(w, g, h); MC_DESC("window [" + str(g) + "," + str(h) + ") of window [" + str(f) + "," + str(l) + ") of " + str(v));
				eq("sub of sub", items(sprout::sub(s, g, h)), z); eq("sub of sub (iterators)", items(sprout::sub(s, s.begin() + g, s.begin() + h)), z); eq("sub_window of sub", items(sprout::sub_window(s, g, h)), z); eq("sub_offset of sub", items(sprout::sub_offset(s, g, h - (l - f))), z);
				eq("csub of sub", items(sprout::csub(s, g, h)), z); eq("csub_window of sub", items(sprout::csub_window(s, g, h)), z); eq("csub_offset of sub", items(sprout::csub_offset(s, g, h - (l - f))), z);
				eq("sub_copy of sub", items(sprout::sub_copy(s, g, h)), z); eq("sub_window_copy of sub", items(sprout::sub_window_copy(s, g, h)), z); eq("sub_offset_copy of sub", items(sprout::sub_offset_copy(s, g, h - (l - f))), z);
				eq("sub of copied sub", items(sprout::sub(k, g, h)), z);
				eq("csub of sub (iterators)", items(sprout::csub(s, s.begin() + g, s.begin() + h)), z); eq("sub_copy of sub (iterators)", items(sprout::sub_copy(s, s.begin() + g, s.begin() + h)), z); eq("csub of a copy", items(sprout::csub(k, g, h)), z); eq("sub_copy of a copy", items(sprout::sub_copy(k, g, h)), z); eq("sub of a copy (iterators)", items(sprout::sub(k, k.cbegin() + g, k.cbegin() + h)), z); eq("sub_copy of a copy (iterators)", items(sprout::sub_copy(k, k.cbegin() + g, k.cbegin() + h)), z); eq("csub of a copy (iterators)", items(sprout::csub(k, k.cbegin() + g, k.cbegin() + h)), z);
				if (h == l - f) { eq("sub of sub (first)", items(sprout::sub(s, g)), z); eq("csub of sub (first)", items(sprout::csub(s, g)), z); eq("sub_copy of sub (first)", items(sprout::sub_copy(s, g)), z); eq("sub of sub (iterator)", items(sprout::sub(s, s.cbegin() + g)), z); eq("csub of sub (iterator)", items(sprout::csub(s, s.cbegin() + g)), z); eq("sub_copy of sub (iterator)", items(sprout::sub_copy(s, s.cbegin() + g)), z); eq("sub_offset of sub (first)", items(sprout::sub_offset(s, g)), z); eq("csub_offset of sub (first)", items(sprout::csub_offset(s, g)), z); eq("sub_offset_copy of sub (first)", items(sprout::sub_offset_copy(s, g)), z); }
				if (h == l - f) { eq("sub_window of sub (first)", items(sprout::sub_window(s, g)), z); eq("csub_window of sub (first)", items(sprout::csub_window(s, g)), z); eq("sub_window_copy of sub (first)", items(sprout::sub_window_copy(s, g)), z); }
				auto const& cc = s; eq("offset() const", items(cc.offset(g, h - (l - f))), z); eq("coffset()", items(cc.coffset(g, h - (l - f))), z); eq("offset() const leaves the view", items(s), w);
				auto const& kc = k; eq("offset() const of a copy", items(kc.offset(g, h - (l - f))), z);
				auto m = s; m.offset(g, h - (l - f)); eq("offset()", items(m), z); m = s; m.window(g, h); eq("window() addresses the whole array", items(m), cut(v, g, h)); eq("window() const", items(cc.window(g, h)), cut(v, g, h)); eq("cwindow()", items(cc.cwindow(g, h)), cut(v, g, h));
			}
			if (f == 0 && l == (int)N) for (int g = 0; g <= l; ++g) { auto m = s; m.window(g); eq("window(first)", items(m), cut(v, g, l)); auto const& cc = s; eq("window(first) const", items(cc.window(g)), cut(v, g, l)); eq("cwindow(first)", items(cc.cwindow(g)), cut(v, g, l)); }
			for (int g = 0; g <= (int)N; ++g) for (int h = g; h <= (int)N; ++h) { auto t = sprout::sub(a, g, h); V z = cut(v, g, h); compare(s, t, w, z); compare(k, sprout::sub_copy(a, g, h), w, z); compare(cs, sprout::csub(a, g, h), w, z); auto p = s, q = t; p.swap(q); eq("swap of views", items(p), z); eq("swap of views", items(q), w); sprout::swap(p, q); eq("swap of views", items(p), w); p = q; eq("assignment of views", items(p), z); }
			{ auto b = a; auto t = sprout::sub(b, f, l); t.fill(7); V z(v); std::fill(z.begin() + f, z.begin() + l, 7); eq("fill through a view touches only the window", items(b), z); b = a; t.assign(6); std::fill(z.begin() + f, z.begin() + l, 6); eq("assign through a view touches only the window", items(b), z); }
			for (int i = 0; i < l - f; ++i) { auto b = a; auto t = sprout::sub(b, f, l); t[i] = 9; V z(v); z[f + i] = 9; eq("write through a view", items(b), z); auto u = sprout::sub_copy(a, f, l); u[i] = 9; eq("write through a copied view leaves the source", items(a), v); eq("write through a copied view", items(u), cut(z, f, l)); }
		}
	});
}
MC_SECTION(views_3) { views<3>(); }
MC_SECTION(views_5) { views<5>(); }
MC_SECTION(view_c_array) {
	sequences(4, 2, [](V const& v) { int a[4]; for (int i = 0; i < 4; ++i) a[i] = v[i];
		for (int f = 0; f <= 4; ++f) for (int l = f; l <= 4; ++l) { MC_STATE("window of C array " + str(v) + str(f) + str(l)); trace(); V w = cut(v, f, l); auto s = sprout::sub(a, f, l); view_checks(s, w); auto k = sprout::sub_copy(a, f, l); view_checks(k, w); ok("data() of a window", s.data() == a + f); if (f == 0 && l == 4) { WHOLE(sub, a); WHOLE(csub, a); WHOLE(sub_copy, a); } } });
}
// --- histories of a window over an array (the array outside the window is part of the state)
template<class S> struct H { sprout::array<int, 4> under; S view; V all; int f, l; };
struct ByValue { typedef sprout::sub_array<sprout::array<int, 4> > S; static S make(sprout::array<int, 4>& a, int f, int l) { return sprout::sub_copy(a, f, l); } static V all(S const& s, sprout::array<int, 4> const&) { return items(s.get_array()); } };
// a fresh view per operation, so that a copied state does not point into its parent
struct St { V all; int f, l; };
template<class S> void step(const char* nm, S& s, sprout::array<int, 4> const& inner, V const& all, int f, int l) { eq(intern(std::string("history/") + nm + ": view"), items(s), cut(all, f, l)); eq(intern(std::string("history/") + nm + ": underlying array"), items(inner), all); eq(intern(std::string("history/") + nm + ": size"), (int)s.size(), l - f); }
template<bool Ref> void history() {
	std::vector<Op<St> > ops;
	auto run = [](const char* nm, St& st, std::function<void(V&, int&, int&)> model, std::function<void(sprout::sub_array<sprout::array<int, 4>&>&)> r, std::function<void(sprout::sub_array<sprout::array<int, 4> >&)> c) {
		auto a = arr<4>(st.all); V all = st.all; int f = st.f, l = st.l; model(all, f, l);
		if (Ref) { auto s = sprout::sub(a, st.f, st.l); r(s); step(nm, s, a, all, f, l); }
		else { auto s = sprout::sub_copy(a, st.f, st.l); c(s); step(nm, s, s.get_array(), all, f, l); eq("history: the source of a copied view is unchanged", items(a), st.all); }
		st.all = all; st.f = f; st.l = l; return true;
	};
	#define OPS(nm, guard, mdl, call) ops.push_back(Op<St>{nm, [=](St& st) { if (!(guard)) return false; return run(nm, st, [=](V& a, int& f, int& l) { (void)a; (void)f; (void)l; mdl; }, [=](sprout::sub_array<sprout::array<int, 4>&>& s) { call; }, [=](sprout::sub_array<sprout::array<int, 4> >& s) { call; }); }})
	for (int x = 1; x <= 2; ++x) { OPS("push_back", st.l < 4, a[l++] = x, int const y = x; s.push_back(y)); OPS("push_back(rvalue)", st.l < 4, a[l++] = x, int y = x; s.push_back(std::move(y))); OPS("push_front", st.f > 0, a[--f] = x, int const y = x; s.push_front(y)); OPS("push_front(rvalue)", st.f > 0, a[--f] = x, int y = x; s.push_front(std::move(y))); OPS("fill", true, std::fill(a.begin() + f, a.begin() + l, x), s.fill(x)); OPS("assign", true, std::fill(a.begin() + f, a.begin() + l, x), s.assign(x)); }
	OPS("pop_back", st.l > st.f, a[--l] = 0, s.pop_back()); OPS("pop_front", st.l > st.f, a[f++] = 0, s.pop_front()); OPS("drop_back", st.l > st.f, --l, s.drop_back()); OPS("drop_front", st.l > st.f, ++f, s.drop_front());
	OPS("offset(-1, 1)", st.f > 0 && st.l < 4, --f; ++l, s.offset(-1, 1)); OPS("offset(1, 0)", st.l > st.f, ++f, s.offset(1)); OPS("window(1, 3)", true, f = 1; l = 3, s.window(1, 3)); OPS("window(0, 4)", true, f = 0; l = 4, s.window(0, 4)); OPS("window(2, 2)", true, f = 2; l = 2, s.window(2, 2));
	St init = {V(4, 0), 1, 1};
	bfs(init, ops, [](St const& s) { return str(s.all) + str(s.f) + str(s.l); }, 40, 100000);
}
MC_SECTION(history_ref) { history<true>(); }
MC_SECTION(history_copy) { history<false>(); }
// --- pits
template<size_t N> void pits() {
	for (int x = 0; x < 3; ++x) {
		MC_STATE("pit of " + str((int)N) + " holding " + str(x)); trace();
		typedef sprout::pit<sprout::array<int, N> > P; P p(x); P const& c = p; V w(N, x);
		members(p, w); members(c, w); members_rev(p, w); members_rev(c, w); eq("pit begin/end", items(p), w);
		for (int y = 0; y < 3; ++y) { P q(y); compare(c, (P const&)q, w, V(N, y)); P a = p, b = q; a.swap(b); eq("pit swap", items(a), V(N, y)); eq("pit swap", items(b), w); sprout::swap(a, b); eq("pit swap", items(a), w); a = b; eq("pit assignment", items(a), V(N, y)); a = x; eq("pit assignment of a value", items(a), w); if (x == y) eq("pit hash", sprout::hash_value(p), sprout::hash_value(q)); }
		if (N) { P q = p; q[N - 1] = 7; eq("pit write", items(q), V(N, 7)); }
		for (size_t n = 0; n <= N; ++n) {
			MC_STATE("sized_pit of " + str((int)n) + " holding " + str(x)); trace();
			typedef sprout::sized_pit<sprout::array<int, N> > Z; Z z(n, x); Z const& cz = z; V u(n, x);
			members(z, u); members(cz, u); members_rev(z, u); members_rev(cz, u);
			for (size_t m = 0; m <= N; ++m) for (int y = 0; y < 3; ++y) { Z q(m, y); V t(m, y); Z a = z, b = q; a.swap(b); eq("sized_pit swap (left)", items(a), t); eq("sized_pit swap (right)", items(b), u); a = q; eq("sized_pit assignment", items(a), t); Z mv(m, y); b = std::move(mv); eq("sized_pit move assignment", items(b), t); if (n == m && n) compare(cz, (Z const&)q, u, t); if (u == t && n) eq("sized_pit hash", sprout::hash_value(z), sprout::hash_value(q)); }
			Z k(n); eq("sized_pit(size)", items(k), V(n, 0));
		}
	}
}
MC_SECTION(pit_) { pits<1>(); pits<2>(); pits<4>(); }
