// V03: tuples and pairs hold, compare, convert, transform and give back exactly their elements
#include "mc.hpp"
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/tuple/hash.hpp>
#include <sprout/tuple/functions.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/tuple/algorithm.hpp>
#include <sprout/tuple/apply.hpp>
#include <sprout/tuple/fused.hpp>
#include <sprout/tuple/make_from_tuple.hpp>
#include <sprout/tuple/flex.hpp>
#include <sprout/tuple/deep_copy.hpp>
#include <sprout/tuple/std/array.hpp>
#include <sprout/tuple/std/utility.hpp>
#include <sprout/tuple/std/complex.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/pair/access.hpp>
#include <sprout/array.hpp>
#include <sprout/array/tuple.hpp>
#include <sprout/complex.hpp>
#include <sprout/complex/tuple.hpp>
#include <sprout/functional/ref.hpp>
#include <array>
#include <tuple>
#include <memory>
using namespace mc;
namespace so = sprout; namespace st = sprout::tuples;
#ifndef PART
#define PART 1
#endif
// a value that knows when it has been moved from
struct Mv { int v; Mv() : v(0) {} Mv(int a) : v(a) {} Mv(Mv const& o) : v(o.v) {} Mv(Mv&& o) : v(o.v) { o.v = -1; } Mv& operator=(Mv const& o) { v = o.v; return *this; } Mv& operator=(Mv&& o) { int t = o.v; o.v = -1; v = t; return *this; } };
inline bool operator==(Mv const& a, Mv const& b) { return a.v == b.v; } inline bool operator<(Mv const& a, Mv const& b) { return a.v < b.v; }
inline bool operator==(Mv const& a, int b) { return a.v == b; } inline bool operator<(Mv const& a, int b) { return a.v < b; } inline bool operator<(int a, Mv const& b) { return a < b.v; } inline bool operator==(int a, Mv const& b) { return a == b.v; }
inline std::size_t hash_value(Mv const& c) { return (std::size_t)c.v * 31 + 7; }
inline int rd(Mv const& m) { return m.v; } inline int rd(int i) { return i; } inline int rd(short i) { return i; } inline int rd(char i) { return i; } inline int rd(long i) { return (int)i; } inline int rd(double i) { return (int)i; }
inline int rd(std::unique_ptr<int> const& p) { return p ? *p : -1; }
typedef std::vector<int> V;
template<std::size_t I, std::size_t N> struct Get { template<class T> static void into(T const& t, V& r) { r.push_back(rd(st::get<I>(t))); Get<I + 1, N>::into(t, r); } };
template<std::size_t N> struct Get<N, N> { template<class T> static void into(T const&, V&) {} };
template<class T> V vals(T const& t) { V r; Get<0, st::tuple_size<T>::value>::into(t, r); return r; }
// types of each arity: own (A) and convertible to them (B)
template<int N> struct Ty; 
template<> struct Ty<0> { typedef so::tuple<> A; typedef so::tuple<> B; typedef std::tuple<> S; static A mk(V const&) { return A(); } static B mb(V const&) { return B(); } static S ms(V const&) { return S(); } };
template<> struct Ty<1> { typedef so::tuple<Mv> A; typedef so::tuple<int> B; typedef std::tuple<Mv> S; static A mk(V const& v) { return A(Mv(v[0])); } static B mb(V const& v) { return B(v[0]); } static S ms(V const& v) { return S(Mv(v[0])); } };
template<> struct Ty<2> { typedef so::tuple<int, Mv> A; typedef so::tuple<short, int> B; typedef std::tuple<int, Mv> S; static A mk(V const& v) { return A(v[0], Mv(v[1])); } static B mb(V const& v) { return B((short)v[0], v[1]); } static S ms(V const& v) { return S(v[0], Mv(v[1])); } };
template<> struct Ty<3> { typedef so::tuple<Mv, short, int> A; typedef so::tuple<Mv, char, short> B; typedef std::tuple<Mv, short, int> S; static A mk(V const& v) { return A(Mv(v[0]), (short)v[1], v[2]); } static B mb(V const& v) { return B(Mv(v[0]), (char)v[1], (short)v[2]); } static S ms(V const& v) { return S(Mv(v[0]), (short)v[1], v[2]); } };
template<> struct Ty<4> { typedef so::tuple<int, Mv, Mv, long> A; typedef so::tuple<int, Mv, int, int> B; typedef std::tuple<int, Mv, Mv, long> S; static A mk(V const& v) { return A(v[0], Mv(v[1]), Mv(v[2]), (long)v[3]); } static B mb(V const& v) { return B(v[0], Mv(v[1]), v[2], v[3]); } static S ms(V const& v) { return S(v[0], Mv(v[1]), Mv(v[2]), (long)v[3]); } };
struct Collect { template<class... T> V operator()(T const&... t) const { V r{rd(t)...}; return r; } };
struct Built { V v; template<class... T> explicit Built(T const&... t) : v{rd(t)...} {} };
inline V cat(V a, V const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
template<int N> V moved_from(V const& v); // which elements of A are movable objects
template<class T> int moved(T const& t) { V r = vals(t); int n = 0; for (int x : r) n += x == -1; return n; }
template<int N> struct Movable { static int const a = N == 0 ? 0 : N == 1 ? 1 : N == 2 ? 1 : N == 3 ? 1 : 2; static int const b = N == 3 ? 1 : N == 4 ? 1 : 0; };
#if PART == 1
template<int N> void compare() {
	typedef Ty<N> Y; typedef typename Y::A A; typedef typename Y::B B;
	sequences(N, 3, [&](V const& v) {
		A const a = Y::mk(v); B const b = Y::mb(v); typename Y::S const s = Y::ms(v);
		sequences(N, 3, [&](V const& w) {
			MC_STATE("tuples of " + str(N) + " elements: " + str(v) + ", " + str(w));
			A const c = Y::mk(w); B const d = Y::mb(w); trace();
			eq("==", a == c, v == w); eq("!=", a != c, v != w); eq("<", a < c, v < w); eq(">", a > c, v > w); eq("<=", a <= c, v <= w); eq(">=", a >= c, v >= w);
			eq("== of different element types", a == d, v == w); eq("!= of different element types", a != d, v != w); eq("< of different element types", a < d, v < w); eq("> of different element types", b > c, v > w); eq("<= of different element types", b <= c, v <= w); eq(">= of different element types", a >= d, v >= w);
			if (v == w) eq("hash_value of equal tuples", hash_value(a), hash_value(c));
		});
	});
}
template<int N> struct Assigned { // assignment and construction from values of every kind
	template<class Y> static void run(V const& v, V const& w) {
		typedef typename Y::A A; typedef typename Y::B B;
		{ A const x = Y::mk(w); A a(x); eq("copy construction", vals(a), w); eq("copy construction source", vals(x), w); }
		{ A x = Y::mk(w); A a(x); eq("copy from a mutable source", vals(a), w); eq("copy from a mutable source keeps it", vals(x), w); }
		{ A x = Y::mk(w); A a(std::move(x)); eq("move construction", vals(a), w); eq("move construction source", moved(x), (int)Movable<N>::a); }
		{ B const x = Y::mb(w); A a(x); eq("converting construction", vals(a), w); eq("converting construction source", vals(x), w); }
		{ B x = Y::mb(w); A a(std::move(x)); eq("converting move construction", vals(a), w); eq("converting move source", moved(x), (int)Movable<N>::b); }
		{ A a = Y::mk(v); A const x = Y::mk(w); A& r = (a = x); eq("copy assignment", vals(a), w); eq("copy assignment result", &r == &a, true); eq("copy assignment source", vals(x), w); }
		{ A a = Y::mk(v); A x = Y::mk(w); a = x; eq("assignment from a mutable source", vals(a), w); eq("assignment from a mutable source keeps it", vals(x), w); }
		{ A a = Y::mk(v); A x = Y::mk(w); A& r = (a = std::move(x)); eq("move assignment", vals(a), w); eq("move assignment result", &r == &a, true); eq("move assignment source", moved(x), (int)Movable<N>::a); }
		{ A a = Y::mk(v); B const x = Y::mb(w); A& r = (a = x); eq("converting assignment", vals(a), w); eq("converting assignment result", &r == &a, true); }
		{ A a = Y::mk(v); B x = Y::mb(w); a = x; eq("converting assignment from a mutable source", vals(a), w); eq("converting assignment keeps its source", vals(x), w); }
		{ A a = Y::mk(v); B x = Y::mb(w); A& r = (a = std::move(x)); eq("converting move assignment", vals(a), w); eq("converting move assignment result", &r == &a, true); eq("converting move assignment source", moved(x), (int)Movable<N>::b); }
	}
};
template<> struct Assigned<0> { template<class Y> static void run(V const&, V const&) { so::tuple<> a; so::tuple<> b(a); so::tuple<> c(std::move(a)); eq("empty tuple", b == c, true); } };
template<int N> void histories() {
	typedef Ty<N> Y; typedef typename Y::A A;
	sequences(N, 3, [&](V const& v) {
		{ MC_STATE("tuple of " + str(N) + " elements " + str(v)); trace(); A t; eq("default construction", vals(t), V(N, 0)); A a = Y::mk(v); eq("elements", vals(a), v);
			typename Y::S s = static_cast<typename Y::S>(a); eq("conversion to std::tuple", s == Y::ms(v), true); a.swap(a); eq("self swap", vals(a), v); }
		sequences(N, 3, [&](V const& w) {
			MC_STATE("tuples of " + str(N) + " elements: " + str(v) + ", " + str(w)); trace();
			Assigned<N>::template run<Y>(v, w);
			{ A a = Y::mk(v), b = Y::mk(w); a.swap(b); eq("swap", vals(a), w); eq("swap other", vals(b), v); swap(a, b); eq("free swap", vals(a), v); eq("free swap other", vals(b), w); so::swap(a, b); eq("sprout::swap", vals(a), w); eq("sprout::swap other", vals(b), v); }
		});
	});
}
MC_SECTION(v03_compare) { bound("tuples", "arity 0 to 4, elements over 3 values: all pairs"); compare<0>(); compare<1>(); compare<2>(); compare<3>(); compare<4>(); }
MC_SECTION(v03_histories) { histories<0>(); histories<1>(); histories<2>(); histories<3>(); histories<4>(); }
// get by index and by type gives a reference to the element, of the right category
template<std::size_t I, class T> void get_at(T& t, V const& v) {
	T const& c = t; typedef typename st::tuple_element<I, T>::type E;
	eq("get", rd(st::get<I>(t)), v[I]); eq("get const", rd(st::get<I>(c)), v[I]); eq("get refers to the element", (void const*)&st::get<I>(t) == (void const*)&st::get<I>(c), true);
	eq("get type", std::is_same<decltype(st::get<I>(t)), E&>::value && std::is_same<decltype(st::get<I>(c)), E const&>::value && std::is_same<decltype(st::get<I>(std::move(t))), E&&>::value, true);
	E&& r = st::get<I>(std::move(t)); eq("get rvalue refers to the element", &r == &st::get<I>(t), true);
	st::get<I>(t) = E(2 - v[I]); eq("get writes", rd(st::get<I>(c)), 2 - v[I]); st::get<I>(t) = E(v[I]);
	V now = vals(t); eq("get writes only its element", now, v);
}
template<class T, class S> void types() {
	eq("tuple_size", (int)st::tuple_size<T>::value, (int)std::tuple_size<S>::value); eq("std::tuple_size", (int)std::tuple_size<T>::value, (int)std::tuple_size<S>::value);
}
template<std::size_t I, class T, class S> void types_at() { eq("tuple_element", std::is_same<typename st::tuple_element<I, T>::type, typename std::tuple_element<I, S>::type>::value, true); eq("std::tuple_element", std::is_same<typename std::tuple_element<I, T>::type, typename std::tuple_element<I, S>::type>::value, true); }
MC_SECTION(v03_access) {
	bound("access", "every index of every tuple, pair and tuple-like value");
	sequences(4, 3, [&](V const& v) {
		MC_STATE("elements " + str(v)); trace();
		Ty<4>::A a = Ty<4>::mk(v); get_at<0>(a, v); get_at<1>(a, v); get_at<2>(a, v); get_at<3>(a, v); eq("get by type", rd(st::get<long>(a)), v[3]); eq("get by type first", rd(st::get<int>(a)), v[0]);
		V v3(v.begin(), v.begin() + 3), v2(v.begin(), v.begin() + 2);
		Ty<3>::A b = Ty<3>::mk(v3); get_at<0>(b, v3); get_at<1>(b, v3); get_at<2>(b, v3); eq("get by type", rd(st::get<Mv>(b)), v[0]); eq("get by type", rd(st::get<short>(b)), v[1]);
		Ty<2>::A c = Ty<2>::mk(v2); get_at<0>(c, v2); get_at<1>(c, v2);
		so::pair<int, Mv> p(v[0], Mv(v[1])); get_at<0>(p, v2); get_at<1>(p, v2); eq("first", rd(so::first(p)), v[0]); eq("second", rd(so::second(p)), v[1]); so::first(p) = 5; so::second(p) = Mv(6); eq("first writes", p.first, 5); eq("second writes", p.second.v, 6);
		std::pair<int, Mv> q(v[0], Mv(v[1])); get_at<0>(q, v2); get_at<1>(q, v2);
		std::tuple<Mv, short, int> d(Mv(v[0]), (short)v[1], v[2]); get_at<0>(d, v3); get_at<1>(d, v3); get_at<2>(d, v3);
		std::array<int, 4> e = {{v[0], v[1], v[2], v[3]}}; get_at<0>(e, v); get_at<3>(e, v); get_at<2>(e, v);
		so::array<Mv, 4> f = {{v[0], v[1], v[2], v[3]}}; get_at<0>(f, v); get_at<1>(f, v); get_at<2>(f, v); get_at<3>(f, v);
		so::complex<double> z(v[0], v[1]); get_at<0>(z, v2); get_at<1>(z, v2);
		st::get<0>(b) = Mv(3); typedef so::tuple<Ty<3>::A, so::pair<Mv, Ty<2>::A>, int> Nest; Nest n(b, so::pair<Mv, Ty<2>::A>(Mv(v[3]), c), 9);
		eq("nested_get", rd(st::nested_get<0, 1>(n)), v[1]); eq("nested_get", rd(st::nested_get<1, 1, 1>(n)), v[1]); eq("nested_get", rd(st::nested_get<1, 0>(n)), v[3]); eq("nested_get", rd(st::nested_get<2>(n)), 9); st::nested_get<1, 1, 0>(n) = 8; eq("nested_get writes", st::get<0>(st::get<1>(n).second), 8);
	});
	MC_STATE("element types"); trace();
	types<Ty<4>::A, Ty<4>::S>(); types<Ty<3>::A, Ty<3>::S>(); types<Ty<2>::A, Ty<2>::S>(); types<Ty<1>::A, Ty<1>::S>(); types<Ty<0>::A, Ty<0>::S>(); types<so::pair<int, Mv>, std::pair<int, Mv>>();
	types_at<0, Ty<4>::A, Ty<4>::S>(); types_at<1, Ty<4>::A, Ty<4>::S>(); types_at<2, Ty<4>::A, Ty<4>::S>(); types_at<3, Ty<4>::A, Ty<4>::S>(); types_at<0, so::pair<int, Mv>, std::pair<int, Mv>>(); types_at<1, so::pair<int, Mv>, std::pair<int, Mv>>();
	types_at<0, so::tuple<int&, Mv const&, Mv&&>, std::tuple<int&, Mv const&, Mv&&>>(); types_at<1, so::tuple<int&, Mv const&, Mv&&>, std::tuple<int&, Mv const&, Mv&&>>(); types_at<2, so::tuple<int&, Mv const&, Mv&&>, std::tuple<int&, Mv const&, Mv&&>>();
	types_at<2, Ty<3>::A const, Ty<3>::S const>(); types_at<1, so::pair<int, Mv> const, std::pair<int, Mv> const>();
}
#endif
#if PART == 2
// operations building new tuples
template<int N> void shapes() {
	typedef Ty<N> Y; typedef typename Y::A A;
	sequences(N, 3, [&](V const& v) {
		MC_STATE("tuple of " + str(N) + " elements " + str(v)); trace();
		A const a = Y::mk(v); A m = Y::mk(v); Mv const x(7); int const y = 8;
		eq("push_back", vals(st::push_back(a, x)), cat(v, V{7})); eq("push_back of two", vals(st::push_back(a, x, y)), cat(v, V{7, 8})); eq("push_back of none", vals(st::push_back(a)), v);
		eq("push_front", vals(st::push_front(a, x)), cat(V{7}, v)); eq("push_front of two", vals(st::push_front(a, x, y)), cat(V{7, 8}, v)); eq("push_front of none", vals(st::push_front(a)), v);
		eq("apply", so::apply(Collect(), a), v); eq("apply to a mutable tuple", so::apply(Collect(), m), v); eq("fused", so::make_fused(Collect())(a), v); eq("fused of a mutable tuple", so::make_fused(Collect())(m), v);
		eq("make_from_tuple", so::make_from_tuple<Built>(a).v, v); eq("make_from_tuple of a mutable tuple", so::make_from_tuple<Built>(m).v, v);
		eq("deep_copy", vals(st::deep_copy(a)), v); eq("source unchanged", vals(m), v); 
		{ A k = Y::mk(v); V r; auto f = [&](A&& t) { return so::apply(Collect(), std::move(t)); }; eq("apply to an rvalue", f(std::move(k)), v); }
	});
}
template<int N> void pops() {
	typedef Ty<N> Y; typedef typename Y::A A;
	sequences(N, 3, [&](V const& v) { MC_STATE("tuple of " + str(N) + " elements " + str(v)); trace(); A const a = Y::mk(v);
		eq("pop_back", vals(st::pop_back(a)), V(v.begin(), v.end() - 1)); eq("pop_front", vals(st::pop_front(a)), V(v.begin() + 1, v.end())); });
}
template<int N, int K> void joins() {
	typedef Ty<N> Y; typedef Ty<K> Z; 
	sequences(N, 3, [&](V const& v) { typename Y::A const a = Y::mk(v); sequences(K, 3, [&](V const& u) {
		V w = u; for (int& x : w) x += 3; // distinguishable from the first tuple's elements
		MC_STATE("tuples " + str(v) + ", " + str(w)); trace(); typename Z::A const b = Z::mk(w);
		eq("append_back", vals(st::append_back(a, b)), cat(v, w)); eq("append_front", vals(st::append_front(a, b)), cat(w, v));
		eq("tuple_cat", vals(so::tuple_cat(a, b)), cat(v, w)); typename Y::A m = Y::mk(v); typename Z::A k = Z::mk(w); eq("tuple_cat of mutable tuples", vals(so::tuple_cat(m, k)), cat(v, w)); eq("tuple_cat keeps its sources", cat(vals(m), vals(k)), cat(v, w));
		eq("tuple_cat of three", vals(so::tuple_cat(a, b, a)), cat(cat(v, w), v)); eq("tuple_cat of rvalues", vals(so::tuple_cat(std::move(m), std::move(k))), cat(v, w)); eq("tuple_cat moves from rvalues", moved(m) + moved(k), Movable<N>::a + Movable<K>::a);
	}); });
}
template<int N> void joins_from() { joins<N, 0>(); joins<N, 1>(); joins<N, 2>(); joins<N, 3>(); }
struct L1 { typedef so::tuple<int> T; }; 
template<class To, int N> void flexible(int k) {
	sequences(N, 3, [&](V const& v0) { V v = v0; for (int& x : v) ++x; MC_STATE("flexible construction of " + str(k) + " elements from " + str(v)); trace();
		typedef Ty<N> Y; typename Y::A const a = Y::mk(v); V want(v.begin(), v.begin() + std::min(k, N)); want.resize(k, 0);
		eq("flexibly_construct", vals(To(so::flexibly_construct, a)), want); typename Y::A m = Y::mk(v); eq("flexibly_construct from rvalue", vals(To(so::flexibly_construct, std::move(m))), want);
		To t = so::flex(a); eq("flex", vals(t), want); To r = so::recursive_flex(a); eq("recursive_flex", vals(r), want); eq("flex<To>", vals(so::flex<To>(a)), want); eq("recursive_flex<To>", vals(so::recursive_flex<To>(a)), want);
	});
}
template<class To> void flexible_all(int k) { flexible<To, 0>(k); flexible<To, 1>(k); flexible<To, 2>(k); flexible<To, 3>(k); flexible<To, 4>(k); }
template<int N> struct H; // homogeneous, but of two types
template<> struct H<0> { typedef so::tuple<> A; static A mk(V const&) { return A(); } }; template<> struct H<1> { typedef so::tuple<Mv> A; static A mk(V const& v) { return A(Mv(v[0])); } }; template<> struct H<2> { typedef so::pair<Mv, Mv> A; static A mk(V const& v) { return A(v[0], v[1]); } };
template<> struct H<3> { typedef so::tuple<Mv, Mv, Mv> A; static A mk(V const& v) { return A(Mv(v[0]), Mv(v[1]), Mv(v[2])); } }; template<> struct H<4> { typedef so::array<Mv, 4> A; static A mk(V const& v) { A a = {{v[0], v[1], v[2], v[3]}}; return a; } };
template<int N, int K> void copies() {
	typedef H<N> Y; typedef H<K> Z;
	sequences(N, 3, [&](V const& v) { sequences(K, 3, [&](V const& u) { V w = u; for (int& x : w) x += 3; MC_STATE("copy " + str(w) + " onto " + str(v)); trace();
		typename Y::A const a = Y::mk(v); typename Z::A const b = Z::mk(w); V want = v; for (int i = 0; i < N && i < K; ++i) want[i] = w[i];
		eq("tuples::copy", vals(st::copy(a, b)), want); }); });
}
MC_SECTION(v03_shapes) { bound("shapes", "arity 0 to 4 over 3 values, all pairs of arities for joining"); shapes<0>(); shapes<1>(); shapes<2>(); shapes<3>(); shapes<4>(); pops<1>(); pops<2>(); pops<3>(); pops<4>(); }
MC_SECTION(v03_join) { joins_from<0>(); joins_from<1>(); joins_from<2>(); joins_from<3>(); }
MC_SECTION(v03_flexible) {
	flexible_all<so::tuple<>>(0); flexible_all<so::tuple<Mv>>(1); flexible_all<so::tuple<Mv, Mv>>(2); flexible_all<so::tuple<Mv, Mv, Mv>>(3); flexible_all<so::tuple<Mv, Mv, Mv, Mv>>(4); flexible_all<so::tuple<Mv, Mv, Mv, Mv, Mv>>(5);
	sequences(3, 3, [&](V const& v0) { V v = v0; for (int& x : v) ++x; MC_STATE("flexible elements " + str(v)); trace(); typedef so::tuple<Mv, Mv, Mv> T3; typedef so::tuple<Mv> T1;
		eq("flexibly_construct from elements", vals(T3(so::flexibly_construct, v[0])), V({v[0], 0, 0})); eq("flexibly_construct from elements", vals(T3(so::flexibly_construct, v[0], v[1])), V({v[0], v[1], 0})); eq("flexibly_construct from elements", vals(T3(so::flexibly_construct, v[0], v[1], v[2])), v); eq("flexibly_construct from elements", vals(T1(so::flexibly_construct, v[0], v[1], v[2])), V({v[0]})); eq("flexibly_construct from elements", vals(T3(so::flexibly_construct)), V({0, 0, 0}));
		so::pair<int, Mv> const p(v[0], Mv(v[1])); eq("flexibly_construct from pair", vals(T3(so::flexibly_construct, p)), V({v[0], v[1], 0})); eq("flexibly_construct from pair", vals(T1(so::flexibly_construct, p)), V({v[0]})); eq("flexibly_construct from pair", vals(so::tuple<Mv, Mv>(so::flexibly_construct, so::pair<int, Mv>(v[0], Mv(v[1])))), V({v[0], v[1]}));
		typedef so::tuple<so::tuple<Mv, Mv, Mv>, so::tuple<Mv>, Mv> Deep; so::tuple<so::tuple<Mv>, so::tuple<Mv, Mv>> const s((so::tuple<Mv>(Mv(v[0]))), so::tuple<Mv, Mv>(Mv(v[1]), Mv(v[2]))); Deep d = so::recursive_flex(s);
		eq("recursive_flex nested", vals(st::get<0>(d)), V({v[0], 0, 0})); eq("recursive_flex nested", vals(st::get<1>(d)), V({v[1]})); eq("recursive_flex nested", rd(st::get<2>(d)), 0);
	});
}
MC_SECTION(v03_copy) { copies<0, 0>(); copies<0, 2>(); copies<1, 1>(); copies<1, 2>(); copies<2, 1>(); copies<2, 2>(); copies<2, 3>(); copies<3, 1>(); copies<3, 2>(); copies<3, 3>(); copies<3, 0>(); copies<4, 3>(); copies<4, 2>(); copies<3, 4>(); }
#endif
#if PART == 3
template<class P> V two(P const& p) { return V({rd(p.first), rd(p.second)}); }
MC_SECTION(v03_pair) {
	bound("pairs", "all pairs of pairs over 3 values, every construction, conversion and assignment");
	typedef so::pair<int, Mv> P; typedef so::pair<short, int> Q; typedef so::tuple<int, Mv> T; typedef so::tuple<short, int> U;
	sequences(2, 3, [&](V const& v) { sequences(2, 3, [&](V const& w0) {
		V w = w0; MC_STATE("pairs " + str(v) + ", " + str(w)); trace();
		P const a(v[0], Mv(v[1])), b(w[0], Mv(w[1]));
		eq("==", a == b, v == w); eq("!=", a != b, v != w); eq("<", a < b, v < w); eq(">", a > b, v > w); eq("<=", a <= b, v <= w); eq(">=", a >= b, v >= w); if (v == w) eq("hash_value of equal pairs", hash_value(a), hash_value(b));
		w[0] += 3; w[1] += 4;
		P const c(w[0], Mv(w[1])); Q const q((short)w[0], w[1]); T const t(w[0], Mv(w[1])); U const u((short)w[0], w[1]);
		eq("default", two(P()), V({0, 0})); eq("construct", two(c), w); { int x = w[0]; Mv y(w[1]); eq("construct from values", two(P(x, y)), w); eq("construct keeps", rd(y), w[1]); eq("construct by move", two(P(x, std::move(y))), w); eq("construct by move moves", rd(y), -1); }
		eq("copy", two(P(c)), w); eq("convert", two(P(q)), w); eq("from tuple", two(P(t)), w); eq("from convertible tuple", two(P(u)), w); eq("std::pair", std::pair<int, Mv>(c) == std::pair<int, Mv>(w[0], Mv(w[1])), true);
		{ P m(c); P n(std::move(m)); eq("move", two(n), w); eq("move source", rd(m.second), -1); } { so::pair<short, Mv> m((short)w[0], Mv(w[1])); P n(std::move(m)); eq("converting move", two(n), w); eq("converting move source", rd(m.second), -1); } { T m(t); P n(std::move(m)); eq("move from tuple", two(n), w); eq("move from tuple source", rd(st::get<1>(m)), -1); }
		{ P m(c); P n(m); eq("copy of mutable", two(n), w); eq("copy of mutable keeps it", two(m), w); } { T m(t); P n(m); eq("from mutable tuple", two(n), w); eq("from mutable tuple keeps it", vals(m), w); }
		{ P m(a); eq("assign", two(m = c), w); } { P m(a); P k(c); m = std::move(k); eq("move assign", two(m), w); eq("move assign source", rd(k.second), -1); } { P m(a); P k(c); m = k; eq("assign from mutable", two(m), w); eq("assign from mutable keeps it", two(k), w); }
		{ P m(a); eq("converting assign", two(m = q), w); } { P m(a); so::pair<short, Mv> k((short)w[0], Mv(w[1])); m = std::move(k); eq("converting move assign", two(m), w); eq("converting move assign source", rd(k.second), -1); }
		{ P m(a); eq("assign tuple", two(m = t), w); } { P m(a); eq("assign convertible tuple", two(m = u), w); } { P m(a); T k(t); m = std::move(k); eq("move assign tuple", two(m), w); eq("move assign tuple source", rd(st::get<1>(k)), -1); } { P m(a); T k(t); m = k; eq("assign mutable tuple", two(m), w); eq("assign mutable tuple keeps it", vals(k), w); }
		{ P m(a), n(c); m.swap(n); eq("swap", two(m), w); eq("swap other", two(n), v); swap(m, n); eq("free swap", two(m), v); so::swap(m, n); eq("sprout::swap", two(n), v); }
		eq("piecewise", two(P(std::piecewise_construct, so::make_tuple(w[0]), so::make_tuple(w[1]))), w); eq("piecewise defaults", two(P(std::piecewise_construct, so::tuple<>(), so::make_tuple(w[1]))), V({0, w[1]})); eq("piecewise defaults", two(P(std::piecewise_construct, so::make_tuple(w[0]), so::tuple<>())), V({w[0], 0}));
		{ typedef so::pair<std::vector<int>, std::string> PP; PP p(std::piecewise_construct, so::make_tuple((std::size_t)2, w[0]), so::make_tuple((std::size_t)3, (char)('a' + w[1]))); eq("piecewise with several arguments", p.first == std::vector<int>(2, w[0]) && p.second == std::string(3, 'a' + w[1]), true); }
		// tuple from pair
		eq("tuple from pair", vals(T(c)), w); eq("tuple from convertible pair", vals(T(q)), w); { P m(c); T n(std::move(m)); eq("tuple moved from pair", vals(n), w); eq("tuple moved from pair source", rd(m.second), -1); } { P m(c); T n(m); eq("tuple from mutable pair", vals(n), w); eq("tuple from mutable pair keeps it", two(m), w); }
		{ T m(v[0], Mv(v[1])); m = c; eq("tuple = pair", vals(m), w); } { T m(v[0], Mv(v[1])); m = q; eq("tuple = convertible pair", vals(m), w); } { T m(v[0], Mv(v[1])); P k(c); m = std::move(k); eq("tuple = moved pair", vals(m), w); eq("tuple = moved pair source", rd(k.second), -1); }
		// make_pair
		{ int x = w[0]; Mv y(w[1]); auto p = so::make_pair(x, y); eq("make_pair type", std::is_same<decltype(p), so::pair<int, Mv>>::value, true); eq("make_pair", two(p), w); eq("make_pair keeps", rd(y), w[1]); auto r = so::make_pair(so::ref(x), so::cref(y)); eq("make_pair of references type", std::is_same<decltype(r), so::pair<int&, Mv const&>>::value, true); r.first = 9; eq("make_pair of references", x, 9); eq("make_pair of references", &r.second == &y, true); auto k = so::make_pair(x, std::move(y)); eq("make_pair moves", rd(y), -1); (void)k; }
		// the generic interface on a pair
		eq("apply to pair", so::apply(Collect(), c), w); eq("apply to std::pair", so::apply(Collect(), std::pair<int, Mv>(w[0], Mv(w[1]))), w); eq("make_from_tuple of pair", so::make_from_tuple<Built>(c).v, w);
		eq("deep_copy of pair", two(st::deep_copy(c)), w);
	}); });
}
MC_SECTION(v03_make) {
	bound("make", "make_tuple, tie, forward_as_tuple and tuple-like values over 3 values");
	sequences(3, 3, [&](V const& v0) { V v = v0; for (int& x : v) x += 3; MC_STATE("elements " + str(v)); trace();
		{ int x = v[0]; Mv y(v[1]); auto t = so::make_tuple(x, y, (short)v[2]); eq("make_tuple type", std::is_same<decltype(t), so::tuple<int, Mv, short>>::value, true); eq("make_tuple", vals(t), v); eq("make_tuple keeps", rd(y), v[1]);
			auto r = so::make_tuple(so::ref(x), so::cref(y)); eq("make_tuple of references type", std::is_same<decltype(r), so::tuple<int&, Mv const&>>::value, true); st::get<0>(r) = 9; eq("make_tuple of references", x, 9); eq("make_tuple of references", &st::get<1>(r) == &y, true); auto m = so::make_tuple(std::move(y)); eq("make_tuple moves", rd(y), -1); eq("make_tuple moves", vals(m), V({v[1]})); eq("make_tuple of none", (int)st::tuple_size<decltype(so::make_tuple())>::value, 0); }
		{ int x = 0; Mv y(0); short z = 0; so::tie(x, y, z) = so::make_tuple(v[0], Mv(v[1]), (short)v[2]); eq("tie", V({x, y.v, z}), v); Mv q(v[1]); so::tuple<int, Mv, short> src(v[2], Mv(v[0]), (short)v[1]); so::tie(x, y, z) = src; eq("tie from lvalue", V({x, y.v, z}), V({v[2], v[0], v[1]})); eq("tie keeps its source", vals(src), V({v[2], v[0], v[1]}));
			auto t = so::tie(x, y, z); eq("tie refers", &st::get<0>(t) == &x && &st::get<1>(t) == &y && &st::get<2>(t) == &z, true); auto t2 = t; eq("copied tie refers", &st::get<1>(t2) == &y, true); auto t3 = std::move(t); eq("moved tie refers", &st::get<0>(t3) == &x, true); eq("moved tie refers", rd(y), v[0]);
			so::tie(x, y) = so::make_pair(v[0], Mv(v[1])); eq("tie from pair", V({x, y.v}), V({v[0], v[1]})); so::pair<int, Mv> const p(v[1], Mv(v[2])); so::tie(x, y) = p; eq("tie from pair lvalue", V({x, y.v}), V({v[1], v[2]})); so::tie(x, so::ignore, z) = so::make_tuple(v[2], 7, (short)v[0]); eq("tie with ignore", V({x, z}), V({v[2], v[0]})); int k = v[0]; so::tuple<int&> a(x), b(k); a = b; eq("assignment of references writes through", x, v[0]); k = v[1]; swap(a, b); eq("swap of references", V({x, k}), V({v[1], v[0]})); }
		{ int x = v[0]; Mv y(v[1]); auto f = so::forward_as_tuple(x, std::move(y), static_cast<Mv const&>(y)); eq("forward_as_tuple type", std::is_same<decltype(f), so::tuple<int&, Mv&&, Mv const&>>::value, true); eq("forward_as_tuple refers", &st::get<0>(f) == &x && &st::get<1>(f) == &y && &st::get<2>(f) == &y, true); eq("forward_as_tuple", rd(y), v[1]);
			so::tuple<int, Mv, Mv> t(so::forward_as_tuple(x, Mv(v[1]), static_cast<Mv const&>(y))); eq("tuple from forward_as_tuple", vals(t), V({v[0], v[1], v[1]})); eq("get of an rvalue tuple of references", std::is_same<decltype(st::get<0>(std::move(f))), int&>::value && std::is_same<decltype(st::get<1>(std::move(f))), Mv&&>::value, true); Mv got(st::get<1>(std::move(f))); eq("get of an rvalue reference element moves", V({got.v, y.v}), V({v[1], -1})); }
		{ typedef so::tuple<std::unique_ptr<int>, int> T; T t(std::unique_ptr<int>(new int(v[0])), v[1]); T u(std::move(t)); eq("move-only construct", V({rd(st::get<0>(t)), rd(st::get<0>(u)), st::get<1>(u)}), V({-1, v[0], v[1]})); T w; w = std::move(u); eq("move-only assign", V({rd(st::get<0>(u)), rd(st::get<0>(w)), st::get<1>(w)}), V({-1, v[0], v[1]})); swap(u, w); eq("move-only swap", V({rd(st::get<0>(u)), rd(st::get<0>(w))}), V({v[0], -1})); auto m = so::tuple_cat(std::move(u), so::make_tuple(v[2])); eq("move-only tuple_cat", V({rd(st::get<0>(m)), st::get<2>(m)}), V({v[0], v[2]})); auto n = so::make_tuple(std::unique_ptr<int>(new int(v[2]))); eq("move-only make_tuple", rd(st::get<0>(n)), v[2]); so::pair<std::unique_ptr<int>, int> p(std::move(st::get<0>(n)), 3); so::pair<std::unique_ptr<int>, int> q; q = std::move(p); eq("move-only pair", V({rd(p.first), rd(q.first)}), V({-1, v[2]})); }
		{ so::array<int, 3> const a = {{v[0], v[1], v[2]}}; eq("apply to array", so::apply(Collect(), a), v); eq("tuple_cat of arrays and tuples", vals(so::tuple_cat(so::make_tuple(v[2]), so::make_tuple(v[1], v[0]))), V({v[2], v[1], v[0]})); so::array<int, 3> b = st::deep_copy(a); eq("deep_copy of array", b == a, true); std::array<int, 3> c = {{v[0], v[1], v[2]}}; eq("apply to std::array", so::apply(Collect(), c), v); eq("make_from_tuple of array", so::make_from_tuple<Built>(a).v, v); eq("push_back onto array", vals(st::push_back(a, 9)), cat(v, V({9}))); eq("pop_front of array", vals(st::pop_front(a)), V({v[1], v[2]})); eq("append of arrays", vals(st::append_back(a, a)), cat(v, v)); }
		// hash distinguishes positions the way to_hash of the elements does
		{ so::tuple<int, int> a(v[0], v[1]), b(v[1], v[0]); if (v[0] != v[1]) eq("hash_value depends on the order", hash_value(a) != hash_value(b), true); so::tuple<int, int> c(v[0], v[2]); if (v[1] != v[2]) eq("hash_value depends on every element", hash_value(a) != hash_value(c), true); eq("std::hash", std::hash<so::tuple<int, int>>()(a), (std::size_t)hash_value(a)); so::pair<int, int> p(v[0], v[1]), q(v[1], v[0]); if (v[0] != v[1]) eq("hash_value of pairs depends on the order", hash_value(p) != hash_value(q), true); eq("std::hash of pair", std::hash<so::pair<int, int>>()(p), (std::size_t)hash_value(p)); }
	});
}
#endif
