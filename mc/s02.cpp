// S02: structural operations on fixed-size sequences equal the same edit on a list: fixed:: and fit:: forms, every position, count, window; edit histories; tuples.
#include "mc.hpp"
#include "preds.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/string.hpp>
#include <sprout/container.hpp>
#include <sprout/operation.hpp>
#include <sprout/tuple.hpp>
#include <sprout/tuple/operation.hpp>
using namespace mc;
typedef std::vector<int> V;
template<class C> V items(C const& c) { V r; auto i = sprout::begin(c), e = sprout::end(c); for (; i != e && r.size() < 64; ++i) r.push_back((int)*i); return r; }
V ins(V v, size_t p, V const& x) { v.insert(v.begin() + p, x.begin(), x.end()); return v; }
V era(V v, size_t p, size_t n) { v.erase(v.begin() + p, v.begin() + p + n); return v; }
V rsz(V v, size_t n, int x) { v.resize(n, x); return v; }
V rszb(V v, size_t n, int x) { while (v.size() < n) v.insert(v.begin(), x); while (v.size() > n) v.erase(v.begin()); return v; }
// after every edit the source is unchanged and the result holds exactly the list (its own begin..end, its size)
template<class R> void res(const char* op, R const& r, V const& w) { eq(op, items(r), w); ok(op, (size_t)sprout::size(r) == w.size()); }
template<size_t L> struct Lvl {};
template<class C> void edits(C const& c, V const& v, Lvl<0>) { eq("contents", items(c), v); }
#define BOTH(op, want, ...) do { res("fixed::" op, sprout::fixed::__VA_ARGS__, want); res("fit::" op, sprout::fit::__VA_ARGS__, want); } while (0)
typedef char T_;
// positional edits at every position
template<size_t M, class C, class X> typename std::enable_if<(M >= 3)>::type shrink3(C const& c, V const& v, X) {
	if (v.size() >= 3) for (size_t p = 0; p + 3 <= v.size(); ++p) { BOTH("erase_n<3>(index)", era(v, p, 3), erase_n<3>(c, (std::ptrdiff_t)p)); }
	if (v.size() >= 3) { BOTH("pop_back_n<3>", era(v, v.size() - 3, 3), pop_back_n<3>(c)); BOTH("pop_front_n<3>", era(v, 0, 3), pop_front_n<3>(c)); }
}
template<size_t M, class C, class X> typename std::enable_if<(M < 3)>::type shrink3(C const&, V const&, X) {}
template<size_t M, class C, class X> typename std::enable_if<(M >= 2)>::type shrink2(C const& c, V const& v, X) {
	if (v.size() >= 2) for (size_t p = 0; p + 2 <= v.size(); ++p) { BOTH("erase_n<2>(index)", era(v, p, 2), erase_n<2>(c, (std::ptrdiff_t)p)); BOTH("erase_n<2>(iterator)", era(v, p, 2), erase_n<2>(c, sprout::next(sprout::begin(c), p))); }
	if (v.size() >= 2) { BOTH("pop_back_n<2>", era(v, v.size() - 2, 2), pop_back_n<2>(c)); BOTH("pop_front_n<2>", era(v, 0, 2), pop_front_n<2>(c)); }
}
template<size_t M, class C, class X> typename std::enable_if<(M < 2)>::type shrink2(C const&, V const&, X) {}
template<size_t M, class C, class X> typename std::enable_if<(M >= 1)>::type shrink1(C const& c, V const& v, X x) {
	for (size_t p = 0; p < v.size(); ++p) {
		BOTH("erase(index)", era(v, p, 1), erase(c, (std::ptrdiff_t)p)); BOTH("erase(iterator)", era(v, p, 1), erase(c, sprout::next(sprout::begin(c), p)));
		BOTH("erase_n<1>", era(v, p, 1), erase_n<1>(c, (std::ptrdiff_t)p)); BOTH("erase_n<0>", v, erase_n<0>(c, (std::ptrdiff_t)p));
		V w = v; w[p] = (int)x; BOTH("set(index)", w, set(c, (std::ptrdiff_t)p, x)); BOTH("set(iterator)", w, set(c, sprout::next(sprout::begin(c), p), x));
	}
	if (!v.empty()) {
		BOTH("pop_back", era(v, v.size() - 1, 1), pop_back(c)); BOTH("pop_front", era(v, 0, 1), pop_front(c)); BOTH("pop_back_n<1>", era(v, v.size() - 1, 1), pop_back_n<1>(c)); BOTH("pop_front_n<1>", era(v, 0, 1), pop_front_n<1>(c));
	}
	BOTH("pop_back_n<0>", v, pop_back_n<0>(c)); BOTH("pop_front_n<0>", v, pop_front_n<0>(c));
}
template<size_t M, class C, class X> typename std::enable_if<(M < 1)>::type shrink1(C const&, V const&, X) {}
template<class C, class X> void grow(C const& c, V const& v, X x, X y) {
	for (size_t p = 0; p <= v.size(); ++p) {
		std::ptrdiff_t d = (std::ptrdiff_t)p; auto it = sprout::next(sprout::begin(c), p);
		BOTH("insert(index)", ins(v, p, V{x}), insert(c, d, x)); BOTH("insert(iterator)", ins(v, p, V{x}), insert(c, it, x));
		BOTH("insert(index, 3 values)", ins(v, p, V{x, y, x}), insert(c, d, x, y, x)); BOTH("insert(iterator, 2 values)", ins(v, p, V{x, y}), insert(c, it, x, y));
		BOTH("insert_n<0>", v, template insert_n<0>(c, d, x)); BOTH("insert_n<2>(index)", ins(v, p, V{x, x}), template insert_n<2>(c, d, x)); BOTH("insert_n<3>(iterator)", ins(v, p, V{x, x, x}), template insert_n<3>(c, it, x));
		BOTH("insert_n<2>(2 values)", ins(v, p, V{x, y, x, y}), template insert_n<2>(c, d, x, y));
	}
	BOTH("push_back", ins(v, v.size(), V{x}), push_back(c, x)); BOTH("push_front", ins(v, 0, V{x}), push_front(c, x));
	BOTH("push_back(3 values)", ins(v, v.size(), V{x, y, x}), push_back(c, x, y, x)); BOTH("push_front(2 values)", ins(v, 0, V{x, y}), push_front(c, x, y));
	BOTH("push_back_n<2>", ins(v, v.size(), V{x, x}), template push_back_n<2>(c, x)); BOTH("push_front_n<3>", ins(v, 0, V{x, x, x}), template push_front_n<3>(c, x));
	BOTH("push_back_n<2>(2 values)", ins(v, v.size(), V{x, y, x, y}), template push_back_n<2>(c, x, y)); BOTH("push_front_n<2>(2 values)", ins(v, 0, V{x, y, x, y}), template push_front_n<2>(c, x, y));
	BOTH("push_back_n<0>", v, template push_back_n<0>(c, x)); BOTH("push_front_n<0>", v, template push_front_n<0>(c, x));
}
// a plain array has its full static size: what the input lacks is value-initialised at the end
template<class C> struct IsArr : std::false_type {}; template<class X, size_t N> struct IsArr<sprout::array<X, N> > : std::true_type {};
template<class C> struct IsStr : std::false_type {}; template<class X, size_t N, class T> struct IsStr<sprout::basic_string<X, N, T> > : std::true_type {};
template<class C> V padto(V v, size_t n) { if (IsArr<C>::value) while (v.size() < n) v.push_back(0); return v; }
// a string made from characters alone ends at its first NUL
template<class C> V nul(V v) { if (IsStr<C>::value) for (size_t i = 0; i < v.size(); ++i) if (!v[i]) { v.resize(i); break; } return v; }
template<class C, class I> void app(C const& c, V const& v, I const& in, V const& w) {
	size_t full = sprout::container_traits<C>::static_size + sprout::container_traits<I>::static_size;
	for (size_t p = 0; p <= v.size(); ++p) {
		auto it = sprout::next(sprout::begin(c), p); V e = ins(v, p, w);
		res("fixed::append(index)", sprout::fixed::append(c, (std::ptrdiff_t)p, in), padto<C>(e, full)); res("fit::append(index)", sprout::fit::append(c, (std::ptrdiff_t)p, in), e);
		res("fixed::append(iterator)", sprout::fixed::append(c, it, in), padto<C>(e, full)); res("fit::append(iterator)", sprout::fit::append(c, it, in), e);
	}
	res("fixed::append_back", sprout::fixed::append_back(c, in), padto<C>(ins(v, v.size(), w), full)); res("fixed::append_front", sprout::fixed::append_front(c, in), padto<C>(ins(v, 0, w), full));
	res("fit::append_back", sprout::fit::append_back(c, in), ins(v, v.size(), w)); res("fit::append_front", sprout::fit::append_front(c, in), ins(v, 0, w));
}
// resize: the result holds N elements
template<size_t N, class C, class X> void size1(C const& c, V const& v, X x) {
	BOTH("resize<N>(fill)", rsz(v, N, x), template resize<N>(c, x)); res("fixed::resize<N>", sprout::fixed::resize<N>(c), nul<C>(rsz(v, N, 0))); res("fit::resize<N>", sprout::fit::resize<N>(c), rsz(v, N, 0));
	BOTH("resize_backward<N>(fill)", rszb(v, N, x), template resize_backward<N>(c, x)); if (!IsStr<C>::value || N <= v.size()) BOTH("resize_backward<N>", rszb(v, N, 0), template resize_backward<N>(c));
}
// realign: the container's full capacity, contents first, then the fill
template<size_t M, class C, class X> void real(C const& c, V const& v, X x) {
	res("fixed::realign(fill)", sprout::fixed::realign(c, x), rsz(v, M, x)); res("fixed::realign", sprout::fixed::realign(c), nul<C>(rsz(v, M, 0)));
	res("fit::realign(fill)", sprout::fit::realign(c, x), v); res("fit::realign", sprout::fit::realign(c), v);
	typedef sprout::array<X, 3> A3; typedef sprout::array<X, 6> A6;
	res("fixed::realign_to<array 3>(fill)", sprout::fixed::realign_to<A3>(c, x), rsz(v, 3, x)); res("fixed::realign_to<array 6>(fill)", sprout::fixed::realign_to<A6>(c, x), rsz(v, 6, x));
	res("fixed::realign_to<array 3>", sprout::fixed::realign_to<A3>(c), rsz(v, 3, 0)); res("fixed::realign_to<array 6>", sprout::fixed::realign_to<A6>(c), rsz(v, 6, 0));
	res("fit::realign_to<array 6>(fill)", sprout::fit::realign_to<A6>(c, x), v); res("fit::realign_to<array 6>", sprout::fit::realign_to<A6>(c), v);
	res("fit::realign_to<array 3>(fill)", sprout::fit::realign_to<A3>(c, x), rsz(v, std::min<size_t>(3, v.size()), x)); res("fit::realign_to<array 3>", sprout::fit::realign_to<A3>(c), rsz(v, std::min<size_t>(3, v.size()), 0));
}
template<class X> struct Inputs {
	sprout::array<X, 0> a0; sprout::array<X, 2> a2; sprout::array<X, 3> base;
	Inputs() { a2[0] = 'p'; a2[1] = 'q'; base[0] = 'r'; base[1] = 's'; base[2] = 't'; }
};
template<size_t M, class X, class C> void all(C const& c, V const& v) {
	X x = (X)'x', y = (X)'y'; Inputs<X> in;
	trace();
	shrink1<M>(c, v, x); shrink2<M>(c, v, x); shrink3<M>(c, v, x); grow(c, v, x, y);
	app(c, v, in.a0, V{}); app(c, v, in.a2, V{'p', 'q'});
	for (int b = 0; b <= 3; ++b) for (int e = b; e <= 3; ++e) app(c, v, sprout::sub(in.base, b, e), V(&in.base[0] + b, &in.base[0] + e));
	size1<0>(c, v, x); size1<1>(c, v, x); size1<3>(c, v, x); size1<6>(c, v, x);
	real<M>(c, v, x);
	eq("source unchanged", items(c), v);
}
template<size_t N> sprout::array<int, N> arr(V const& v) { sprout::array<int, N> a; for (size_t i = 0; i < N; ++i) a[i] = v[i]; return a; }
template<size_t N> void arrays() {
	V v; for (size_t i = 0; i < N; ++i) v.push_back('a' + (int)i);
	MC_STATE("array<" + str(N) + "> " + str(v));
	sprout::array<int, N> a = arr<N>(v); sprout::array<int, N> const& ca = a;
	all<N, int>(ca, v);
}
// every window of an array of N, held by copy and by reference, const and not
template<size_t N> void windows() {
	V v; for (size_t i = 0; i < N; ++i) v.push_back('a' + (int)i);
	sprout::array<int, N> a = arr<N>(v); sprout::array<int, N> const& ca = a;
	for (size_t b = 0; b <= N; ++b) for (size_t e = b; e <= N; ++e) {
		MC_STATE("window [" + str(b) + "," + str(e) + ") of array<" + str(N) + ">");
		V w(v.begin() + b, v.begin() + e);
		all<N, int>(sprout::sub_copy(ca, b, e), w); all<N, int>(sprout::sub(ca, b, e), w); all<N, int>(sprout::sub(a, b, e), w);
		eq("underlying array unchanged", items(a), v);
	}
}
MC_SECTION(s02_arrays) { bound("arrays", "every size 0..5, every position, counts 0..3"); arrays<0>(); arrays<1>(); arrays<2>(); arrays<3>(); arrays<5>(); }
MC_SECTION(s02_windows) { bound("windows", "every window of arrays of 1, 2 and 4, by copy and by reference"); windows<1>(); windows<2>(); windows<4>(); }
template<size_t N> void strs() {
	for (size_t n = 0; n <= N; ++n) {
		std::string s = std::string("abcdef").substr(0, n); V v(s.begin(), s.end());
		MC_STATE("string<" + str(N) + "> \"" + s + "\"");
		sprout::basic_string<char, N> c = sprout::basic_string<char, N>(s.begin(), s.end());
		sprout::basic_string<char, N> const& cc = c;
		all<N, char>(cc, v);
	}
}
MC_SECTION(s02_strings) { bound("strings", "capacities 1, 2 and 4 at every length"); strs<1>(); strs<2>(); strs<4>(); }
// --- histories of edits: the type changes at each step, so the recursion is over types
template<size_t D, class C> struct Hist;
static V h_path;
#define STEP(name, k, expr, want) do { h_path.push_back(k); auto const r = expr; V w2 = want; { MC_STATE("history " + str(h_path) + " from " + str(v)); trace(); eq("history: " name, items(r), w2); } Hist<D - 1, typename std::remove_cv<decltype(r)>::type>::run(r, w2); h_path.pop_back(); } while (0)
template<class C> struct Hist<0, C> { static void run(C const& c, V const& v) { eq("history end", items(c), v); } };
template<size_t D, class C> struct Hist {
	template<size_t M> static typename std::enable_if<(M > 0)>::type shr(C const& c, V const& v) {
		if (v.empty()) return;
		size_t m = v.size() / 2;
		STEP("fixed::erase", 1, sprout::fixed::erase(c, (std::ptrdiff_t)m), era(v, m, 1));
		STEP("fit::pop_front", 2, sprout::fit::pop_front(c), era(v, 0, 1));
		STEP("fixed::pop_back", 3, sprout::fixed::pop_back(c), era(v, v.size() - 1, 1));
		V w = v; w[m] = 'z'; STEP("fit::set", 4, sprout::fit::set(c, (std::ptrdiff_t)m, 'z'), w);
	}
	template<size_t M> static typename std::enable_if<(M == 0)>::type shr(C const&, V const&) {}
	static void run(C const& c, V const& v) {
		shr<sprout::container_traits<C>::static_size>(c, v);
		size_t m = (v.size() + 1) / 2;
		STEP("fit::insert", 5, sprout::fit::insert(c, (std::ptrdiff_t)m, 'i'), ins(v, m, V{'i'}));
		STEP("fixed::push_back", 6, sprout::fixed::push_back(c, 'j'), ins(v, v.size(), V{'j'}));
		STEP("fixed::push_front", 7, sprout::fixed::push_front(c, 'k'), ins(v, 0, V{'k'}));
		STEP("fit::resize_backward<3>", 8, sprout::fit::template resize_backward<3>(c, 'l'), rszb(v, 3, 'l'));
		STEP("fit::realign", 9, sprout::fit::realign(c, 'm'), v);
	}
};
MC_SECTION(s02_hist_array) { bound("histories", "all sequences of 9 edits to depth 3"); Hist<3, sprout::array<int, 2> >::run(arr<2>(V{'a', 'b'}), V{'a', 'b'}); }
MC_SECTION(s02_hist_sub) { for (size_t b = 0; b <= 3; ++b) for (size_t e = b; e <= 3; ++e) { V v{'a', 'b', 'c'}; typedef sprout::sub_array<sprout::array<int, 3> > S; Hist<2, S>::run(sprout::sub_copy(arr<3>(v), b, e), V(v.begin() + b, v.begin() + e)); } }
// --- tuples
template<size_t I, class T> typename std::enable_if<(I == std::tuple_size<T>::value)>::type titems(T const&, V&) {}
template<size_t I, class T> typename std::enable_if<(I < std::tuple_size<T>::value)>::type titems(T const& t, V& r) { r.push_back((int)sprout::tuples::get<I>(t)); titems<I + 1>(t, r); }
template<class T> V tv(T const& t) { V r; titems<0>(t, r); return r; }
template<class T> typename std::enable_if<(std::tuple_size<T>::value > 0)>::type tpop(T const& t, V const& v) {
	eq("tuples::pop_back", tv(sprout::tuples::pop_back(t)), era(v, v.size() - 1, 1)); eq("tuples::pop_front", tv(sprout::tuples::pop_front(t)), era(v, 0, 1));
}
template<class T> typename std::enable_if<(std::tuple_size<T>::value == 0)>::type tpop(T const&, V const&) {}
template<class T> void tops(T const& t, V const& v) {
	MC_STATE("tuple " + str(v)); trace();
	tpop(t, v);
	char x = 'x'; short y = 'y';
	eq("tuples::push_back", tv(sprout::tuples::push_back(t, x)), ins(v, v.size(), V{x})); eq("tuples::push_front", tv(sprout::tuples::push_front(t, x)), ins(v, 0, V{x}));
	eq("tuples::push_back(2)", tv(sprout::tuples::push_back(t, x, y)), ins(v, v.size(), V{x, y})); eq("tuples::push_front(2)", tv(sprout::tuples::push_front(t, x, y)), ins(v, 0, V{x, y}));
	auto e = sprout::tuples::make_tuple(); auto p = sprout::tuples::make_tuple('p', (short)'q', (long)'r');
	eq("tuples::append_back()", tv(sprout::tuples::append_back(t, e)), v); eq("tuples::append_front()", tv(sprout::tuples::append_front(t, e)), v);
	eq("tuples::append_back", tv(sprout::tuples::append_back(t, p)), ins(v, v.size(), V{'p', 'q', 'r'})); eq("tuples::append_front", tv(sprout::tuples::append_front(t, p)), ins(v, 0, V{'p', 'q', 'r'}));
	eq("source tuple unchanged", tv(t), v);
}
MC_SECTION(s02_tuples) {
	tops(sprout::tuples::make_tuple(), V{}); tops(sprout::tuples::make_tuple(1), V{1}); tops(sprout::tuples::make_tuple(1, 'b'), V{1, 'b'}); tops(sprout::tuples::make_tuple((short)1, 'b', 3L), V{1, 'b', 3}); tops(sprout::tuples::make_tuple('a', (short)2, 3L, 4u), V{'a', 2, 3, 4});
}
