// Destinations for container-returning algorithms and the expected result in each.
#ifndef MC_DESTS_HPP
#define MC_DESTS_HPP
#include "mc.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <algorithm>
using namespace mc;
typedef std::vector<int> V;

// ---- views: contents of the underlying container plus the window that the container exposes
template<class C> struct View;
template<class T, std::size_t N> struct View<sprout::array<T, N> > {
	static V in(sprout::array<T, N> const& c) { return V(c.begin(), c.end()); }
	static int lo(sprout::array<T, N> const&) { return 0; }
	static int hi(sprout::array<T, N> const&) { return N; }
};
template<class C> struct View<sprout::sub_array<C> > {
	static V in(sprout::sub_array<C> const& c) { return View<C>::in(c.get_internal()); }
	static int lo(sprout::sub_array<C> const& c) { return (int)c.to_first(); }
	static int hi(sprout::sub_array<C> const& c) { return (int)c.to_last(); }
};
template<std::size_t N> struct View<sprout::basic_string<char, N> > {
	static V in(sprout::basic_string<char, N> const& c) { return V(c.begin(), c.end()); }
	static int lo(sprout::basic_string<char, N> const&) { return 0; }
	static int hi(sprout::basic_string<char, N> const& c) { return (int)c.size(); }
};
template<> struct View<std::vector<int> > {
	static V in(V const& c) { return c; }
	static int lo(V const&) { return 0; }
	static int hi(V const& c) { return (int)c.size(); }
};
// ---- destinations
template<class C> struct Dest { C c; V in; int lo, hi; std::string name;
	Dest(C const& x, std::string const& n) : c(x), in(View<C>::in(x)), lo(View<C>::lo(x)), hi(View<C>::hi(x)), name(n) {}
	int size() const { return hi - lo; }
};
template<int N> sprout::array<int, N> marks() { sprout::array<int, N> a; int k = 50; for (auto& x : a) x = k++; return a; }
template<> sprout::array<int, 0> marks<0>() { return sprout::array<int, 0>(); }

template<class D> V expect(D const& d, V const& w) { V e = d.in; for (int i = 0; i < d.size() && i < (int)w.size(); ++i) e[d.lo + i] = w[i]; return e; }
template<class D> V expect_back(D const& d, V const& w) { V e = d.in; int n = (int)w.size(); for (int i = 0; i < d.size() && i < n; ++i) e[d.hi - 1 - i] = w[n - 1 - i]; return e; }

template<class D, class R> void chk(const char* op, R const& r, D const& d, V const& w) {
	eq(op, std::make_pair(std::make_pair(View<R>::lo(r), View<R>::hi(r)), View<R>::in(r)), std::make_pair(std::make_pair(d.lo, d.hi), expect(d, w)));
}
// the fit form exposes exactly the written part; what lies outside it is unspecified for a string (its size changes)
template<class C> struct is_str { static const bool value = false; };
template<std::size_t N> struct is_str<sprout::basic_string<char, N> > { static const bool value = true; };
template<class D, class R> void chkfit(const char* op, R const& r, D const& d, V const& w) {
	int n = std::min<int>(d.size(), w.size());
	V e = expect(d, w);
	eq(op, std::make_pair(std::make_pair(View<R>::lo(r), View<R>::hi(r)), View<R>::in(r)), std::make_pair(std::make_pair(d.lo, d.lo + n), e));
}
template<class D, class R> void chkb(const char* op, R const& r, D const& d, V const& w) {
	eq(op, std::make_pair(std::make_pair(View<R>::lo(r), View<R>::hi(r)), View<R>::in(r)), std::make_pair(std::make_pair(d.lo, d.hi), expect_back(d, w)));
}
template<class D, class R> void chkfitb(const char* op, R const& r, D const& d, V const& w) {
	int n = std::min<int>(d.size(), w.size());
	eq(op, std::make_pair(std::make_pair(View<R>::lo(r), View<R>::hi(r)), View<R>::in(r)), std::make_pair(std::make_pair(d.hi - n, d.hi), expect_back(d, w)));
}
// deduced type of the result without references
#define BOTH(f, want, ...) do { V w_ = (want); chk("fixed::" #f, sprout::fixed::f(__VA_ARGS__), d, w_); chk(#f, sprout::f(__VA_ARGS__), d, w_); chkfit("fit::" #f, sprout::fit::f(__VA_ARGS__), d, w_); } while (0)

template<class F> void for_dests(int bits, F& f) {
	// 1: arrays
	if (bits & 1) {
		f(Dest<sprout::array<int, 0> >(marks<0>(), "array<0>"));
		f(Dest<sprout::array<int, 1> >(marks<1>(), "array<1>"));
		f(Dest<sprout::array<int, 2> >(marks<2>(), "array<2>"));
		f(Dest<sprout::array<int, 4> >(marks<4>(), "array<4>"));
		f(Dest<sprout::array<int, 6> >(marks<6>(), "array<6>"));
	}
	// 2: windows of an array
	if (bits & 2) {
		typedef sprout::array<int, 5> A;
		for (int l = 0; l <= 5; ++l) for (int h = l; h <= 5; ++h)
			f(Dest<sprout::sub_array<A> >(sprout::sub_array<A>(marks<5>(), l, h), "sub_array<5>[" + std::to_string(l) + "," + std::to_string(h) + ")"));
	}
	// 4: strings of every length in a fixed capacity
	if (bits & 4) {
		for (int n = 0; n <= 4; ++n) { std::string s; for (int i = 0; i < n; ++i) s += char(50 + i); f(Dest<sprout::basic_string<char, 4> >(sprout::basic_string<char, 4>(s.c_str()), "string<4>(" + std::to_string(n) + ")")); }
	}
}

#endif
