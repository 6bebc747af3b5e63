// T01: type lists and index sequences compute the right lists.
// Oracle: the same operation on an ordinary vector of numbers; the lists are taken apart by pattern matching, not with the library.
#include "mc.hpp"
#include <sprout/type.hpp>
#include <sprout/type/algorithm.hpp>
#include <sprout/type/operation.hpp>
#include <sprout/type/functional.hpp>
#include <sprout/type/iterator.hpp>
#include <sprout/type/seq/algorithm.hpp>
#include <sprout/type/type_tuple.hpp>
#include <sprout/type/integral_array.hpp>
#include <sprout/type/uniform_types.hpp>
#include <sprout/type/string.hpp>
#include <sprout/tpp/algorithm.hpp>
#include <sprout/index_tuple.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/indexes.hpp>
#include <tuple>
#include <algorithm>
#include <numeric>
using namespace mc; typedef std::string S; typedef std::vector<long> W; namespace ty = sprout::types;
#ifndef PART
#define PART 0
#endif
template<int N> struct X : std::integral_constant<int, N> { typedef X type; };
template<class T> struct Id { enum { v = T::value }; };
// a list as a vector of numbers
template<class L> struct Val; template<template<class...> class C, class... T> struct Val<C<T...> > { static W get() { return W{long(T::value)...}; } };
template<template<class U, U...> class C, class T, T... N> struct Val<C<T, N...> > { static W get() { return W{long(N)...}; } };
template<sprout::index_t... N> struct Val<sprout::index_tuple<N...> > { static W get() { return W{long(N)...}; } };
template<sprout::uindex_t... N> struct Val<sprout::uindex_tuple<N...> > { static W get() { return W{long(N)...}; } };
template<class T> void list(const char* op, W const& want) { eq(op, str(Val<T>::get()), str(want)); }
template<class T, class U> void same(const char* op) { eq(op, std::is_same<T, U>::value, true); }
// all lists over X<0>..X<K-1> up to a length
template<template<class> class F, int K, int N, class... T> struct Lists;
template<template<class> class F, int K, int N, int I, class... T> struct Each { static void run() { Lists<F, K, N - 1, T..., X<I> >::run(); Each<F, K, N, I + 1, T...>::run(); } };
template<template<class> class F, int K, int N, class... T> struct Each<F, K, N, K, T...> { static void run() {} };
template<template<class> class F, int K, int N, class... T> struct Lists { static void run() { F<ty::type_tuple<T...> >::run(); Each<F, K, N, 0, T...>::run(); } };
template<template<class> class F, int K, class... T> struct Lists<F, K, 0, T...> { static void run() { F<ty::type_tuple<T...> >::run(); } };
template<class L> S nm() { return str(Val<L>::get()); }
static W cat(W a, W const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
#if PART == 0
struct IsOne { template<class T> struct apply : std::integral_constant<bool, T::value == 1> { typedef apply type; }; };
template<class T> struct OneQ : std::integral_constant<bool, T::value == 1> {};
template<class L> struct Bits; template<class... T> struct Bits<ty::type_tuple<T...> > { typedef ty::type_tuple<T...> L;
	template<class C, class I = X<1> > static void queries() { W v = Val<L>::get(); long n = std::count(v.begin(), v.end(), 1), z = v.size(); long first = std::find(v.begin(), v.end(), 1) - v.begin(); MC_STATE(nm<L>()); trace();
		eq("size", long(ty::size<C>::value), z); eq("empty", bool(ty::empty<C>::value), z == 0); eq("count", long(ty::count<C, I>::value), n); eq("count_if", long(ty::count_if<C, IsOne>::value), n); eq("find_index", long(ty::find_index<C, I>::value), first); eq("find_index_if", long(ty::find_index_if<C, IsOne>::value), first); eq("contains", bool(ty::contains<C, I>::value), n > 0); eq("contains_if", bool(ty::contains_if<C, IsOne>::value), n > 0);
		eq("all_of", bool(ty::all_of<C, IsOne>::value), n == z); eq("any_of", bool(ty::any_of<C, IsOne>::value), n > 0); eq("none_of", bool(ty::none_of<C, IsOne>::value), n == 0); eq("one_of", bool(ty::one_of<C, IsOne>::value), n == 1); eq("all_of_same", bool(ty::all_of_same<C, I>::value), n == z); eq("any_of_same", bool(ty::any_of_same<C, I>::value), n > 0); eq("none_of_same", bool(ty::none_of_same<C, I>::value), n == 0); eq("one_of_same", bool(ty::one_of_same<C, I>::value), n == 1); }
	static void run() { queries<L>(); queries<std::tuple<T...> >(); queries<sprout::tuple<T...> >(); queries<ty::integral_array<int, T::value...>, sprout::integral_constant<int, 1> >(); W v = Val<L>::get(); long n = std::count(v.begin(), v.end(), 1), z = v.size();
		MC_STATE("pack " + nm<L>()); trace(); eq("tpp all_of", sprout::tpp::all_of<T...>::value && true, n == z); eq("tpp any_of", sprout::tpp::any_of<T...>::value && true, n > 0); eq("tpp none_of", sprout::tpp::none_of<T...>::value && true, n == 0); eq("tpp one_of", sprout::tpp::one_of<T...>::value && true, n == 1);
		eq("tpp all_of_c", bool(sprout::tpp::all_of_c<T::value == 1 ...>::value), n == z); eq("tpp any_of_c", bool(sprout::tpp::any_of_c<T::value == 1 ...>::value), n > 0); eq("tpp none_of_c", bool(sprout::tpp::none_of_c<T::value == 1 ...>::value), n == 0); eq("tpp one_of_c", bool(sprout::tpp::one_of_c<T::value == 1 ...>::value), n == 1);
		typedef typename L::begin B; typedef typename L::end E; eq("begin end", long(ty::distance<B, E>::value), z); eq("seq find", long(ty::distance<B, typename ty::seq::find<L, X<1> >::type>::value), long(std::find(v.begin(), v.end(), 1) - v.begin())); eq("seq find_if", long(ty::distance<B, typename ty::seq::find_if<L, IsOne>::type>::value), long(std::find(v.begin(), v.end(), 1) - v.begin())); } };
MC_SECTION(queries) { Lists<Bits, 2, 7>::run(); }
template<class L> struct Elems; template<> struct Elems<ty::type_tuple<> > { static void run() {} };
template<class H, class... T> struct Elems<ty::type_tuple<H, T...> > { typedef ty::type_tuple<H, T...> L; template<class It, class L1> static void steps(std::true_type, int I, std::size_t n) { typedef typename ty::prev<It>::type P; eq("prev next", std::is_same<typename ty::next<P>::type, It>::value && long(ty::distance<typename L1::begin, P>::value) == I - 1 && std::is_same<typename ty::advance<It, -1>::type, P>::value && long(ty::distance<typename ty::next<It>::type, typename L1::end>::value) == long(n) - I - 1, true); } template<class It, class L1> static void steps(std::false_type, int, std::size_t) {}
	template<class C, int I> static void at(W const& v) { eq("at", long(ty::at<C, I>::type::value), v[I]); eq("tuple_element", long(ty::tuple_element<I, C>::type::value), v[I]); typedef typename ty::advance<typename L::begin, I>::type It; eq("advance", long(ty::deref<It>::type::value), v[I]); eq("distance", long(ty::distance<typename L::begin, It>::value), long(I)); steps<It, L>(std::integral_constant<bool, (I > 0)>(), I, v.size()); }
	template<class C, sprout::index_t... I> static void all(sprout::index_tuple<I...>) { W v = Val<L>::get(); int d[] = {(at<C, I>(v), 0)...}; (void)d; eq("front", long(ty::front<C>::type::value), v.front()); eq("back", long(ty::back<C>::type::value), v.back()); }
	template<int... V> struct Ext { static void run() { W v{V...}; long mx = *std::max_element(v.begin(), v.end()), mn = *std::min_element(v.begin(), v.end()); eq("tpp max_element_c", long(sprout::tpp::max_element_c<int, V...>::value), mx); eq("tpp min_element_c", long(sprout::tpp::min_element_c<int, V...>::value), mn); eq("tpp max_element", long(sprout::tpp::max_element<X<V>...>::value), mx); eq("tpp min_element", long(sprout::tpp::min_element<X<V>...>::value), mn); } };
	static void run() { MC_STATE(nm<L>()); trace(); all<L>(sprout::make_index_tuple<1 + sizeof...(T)>::make()); all<std::tuple<H, T...> >(sprout::make_index_tuple<1 + sizeof...(T)>::make()); all<ty::integral_array<int, H::value, T::value...> >(sprout::make_index_tuple<1 + sizeof...(T)>::make()); Ext<H::value, T::value...>::run(); Ext<H::value - 1, T::value - 1 ...>::run(); } };
MC_SECTION(elements) { Lists<Elems, 3, 4>::run(); }
#elif PART == 1
struct Cons { template<class A1, class B1> struct apply; template<class... T, class B1> struct apply<ty::type_tuple<T...>, B1> { typedef ty::type_tuple<T..., B1> type; }; };
struct Twice { template<class T> struct apply { typedef sprout::integral_constant<int, 2 * T::value + 1> type; }; }; struct Comb { template<class T, class U> struct apply { typedef sprout::integral_constant<int, 3 * T::value + U::value> type; }; };
template<class L> struct Edit; template<class... T> struct Edit<ty::type_tuple<T...> > { typedef ty::type_tuple<T...> L;
	template<class C> static void grow() { W v = Val<L>::get(); list<typename ty::push_back<C>::type>("push_back none", v); list<typename ty::push_back<C, X<7> >::type>("push_back", cat(v, W{7})); list<typename ty::push_back<C, X<7>, X<8>, X<9> >::type>("push_back many", cat(v, W{7, 8, 9})); list<typename ty::push_front<C, X<7> >::type>("push_front", cat(W{7}, v)); list<typename ty::push_front<C, X<7>, X<8>, X<9> >::type>("push_front many", cat(W{7, 8, 9}, v)); list<typename ty::rebind<C, X<5>, X<6> >::type>("rebind", W{5, 6}); list<typename ty::assign<C, std::tuple<X<4>, X<3> > >::type>("assign", W{4, 3}); list<typename ty::append_back<C, ty::type_tuple<X<5>, X<6> >, std::tuple<X<7> > >::type>("append_back", cat(v, W{5, 6, 7})); list<typename ty::append_front<C, ty::type_tuple<X<5>, X<6> >, std::tuple<X<7> > >::type>("append_front", cat(W{5, 6, 7}, v));
		W m, s, p; for (long x : v) m.push_back(2 * x + 1); list<typename ty::map<C, Twice>::type>("map", m); list<typename ty::transform<C, Twice>::type>("transform", m); for (std::size_t i = 0; i < v.size(); ++i) { s.push_back(3 * v[i] + m[i]); p.push_back(i ? p.back() - v[i] : v[i]); } list<typename ty::transform<C, typename ty::map<C, Twice>::type, Comb>::type>("transform two", s);
		W q(v.size()); std::partial_sum(v.begin(), v.end(), q.begin()); list<typename ty::partial_sum<C>::type>("partial_sum", q); list<typename ty::partial_sum<C, ty::minus_>::type>("partial_sum minus", p); eq("accumulate", long(ty::accumulate<C, sprout::integral_constant<int, 10> >::type::value), std::accumulate(v.begin(), v.end(), 10L)); long d = 10; for (long x : v) d = 3 * d + x; eq("fold", long(ty::fold<C, sprout::integral_constant<int, 10>, Comb>::type::value), d); list<typename ty::fold<C, ty::type_tuple<X<9> >, Cons>::type>("fold order", cat(W{9}, v)); }
	template<class C> static void shrink(std::true_type) { W v = Val<L>::get(); list<typename ty::pop_back<C>::type>("pop_back", W(v.begin(), v.end() - 1)); list<typename ty::pop_front<C>::type>("pop_front", W(v.begin() + 1, v.end())); } template<class C> static void shrink(std::false_type) {}
	static void run() { MC_STATE(nm<L>()); trace(); std::integral_constant<bool, (sizeof...(T) > 0)> ne; grow<L>(); shrink<L>(ne); grow<std::tuple<T...> >(); shrink<std::tuple<T...> >(ne); grow<ty::integral_array<int, T::value...> >(); shrink<ty::integral_array<int, T::value...> >(ne); grow<sprout::index_tuple<T::value...> >(); shrink<sprout::index_tuple<T::value...> >(ne); grow<sprout::integer_sequence<long, T::value...> >(); shrink<sprout::integer_sequence<long, T::value...> >(ne);
		same<typename ty::push_back<std::tuple<T...>, X<3> >::type, std::tuple<T..., X<3> > >("push_back type"); same<typename ty::push_front<sprout::tuple<T...>, X<3> >::type, sprout::tuple<X<3>, T...> >("push_front type"); same<typename ty::append_back<ty::integral_array<int, T::value...>, ty::type_tuple<X<3> > >::type, ty::integral_array<int, T::value..., 3> >("append_back type"); same<typename ty::map<std::tuple<T...>, Twice>::type, std::tuple<sprout::integral_constant<int, 2 * T::value + 1>...> >("map type"); same<typename ty::assign<sprout::index_tuple<T::value...>, ty::type_tuple<X<2>, X<1> > >::type, sprout::index_tuple<2, 1> >("assign type"); } };
MC_SECTION(edits) { Lists<Edit, 3, 4>::run(); }
template<class L1> struct Cat1 { template<class L2> struct Cat2 { static void run() { W a = Val<L1>::get(), b = Val<L2>::get(); MC_STATE(nm<L1>() + nm<L2>()); trace(); list<typename ty::tuple_cat<L1, L2>::type>("tuple_cat", cat(a, b)); list<typename ty::tuple_cat<L2, L1, L1>::type>("tuple_cat", cat(b, cat(a, a))); list<typename ty::tuple_cat<L1, L2, ty::type_tuple<>, ty::type_tuple<X<5> >, L1>::type>("tuple_cat five", cat(a, cat(b, cat(W{5}, a)))); list<typename ty::append_back<L1, L2>::type>("append_back", cat(a, b)); list<typename ty::append_front<L1, L2, L2>::type>("append_front", cat(b, cat(b, a))); list<typename ty::assign<L1, L2>::type>("assign", b); } };
	static void run() { Lists<Cat2, 2, 3>::run(); MC_STATE(nm<L1>()); trace(); list<typename ty::tuple_cat<L1>::type>("tuple_cat one", Val<L1>::get()); list<typename ty::tuple_cat<>::type>("tuple_cat none", W()); list<typename ty::tuple_cat<L1, L1, L1, L1, L1, L1, L1>::type>("tuple_cat seven", [] { W w, v = Val<L1>::get(); for (int i = 0; i < 7; ++i) w = cat(w, v); return w; }()); } };
MC_SECTION(joins) { Lists<Cat1, 2, 3>::run(); }
#elif PART == 2
// sorted lists of 0..3 by counts, every position asked for
template<int N, int V, class... T> struct Rep : Rep<N - 1, V, T..., X<V> > {}; template<int V, class... T> struct Rep<0, V, T...> { typedef ty::type_tuple<T...> type; };
template<class L, int V> void bound(W const& v) { auto lo = std::lower_bound(v.begin(), v.end(), long(V)), up = std::upper_bound(v.begin(), v.end(), long(V)); eq("lower_bound_index", long(ty::lower_bound_index<L, X<V> >::value), long(lo - v.begin())); eq("upper_bound_index", long(ty::upper_bound_index<L, X<V> >::value), long(up - v.begin())); }
template<class L, int V> void boundr(W const& v) { auto lo = std::lower_bound(v.begin(), v.end(), long(V), std::greater<long>()), up = std::upper_bound(v.begin(), v.end(), long(V), std::greater<long>()); eq("lower_bound_index greater", long(ty::lower_bound_index<L, X<V>, ty::greater_>::value), long(lo - v.begin())); eq("upper_bound_index greater", long(ty::upper_bound_index<L, X<V>, ty::greater_>::value), long(up - v.begin())); }
template<int P, int Q, int R> struct Srt { static void run() { typedef typename ty::tuple_cat<typename Rep<P, 0>::type, typename Rep<Q, 1>::type, typename Rep<R, 2>::type>::type L; typedef typename ty::tuple_cat<typename Rep<P, 2>::type, typename Rep<Q, 1>::type, typename Rep<R, 0>::type>::type G; W v = Val<L>::get(), g = Val<G>::get(); MC_STATE(nm<L>()); trace(); W w(P, 0); w.insert(w.end(), Q, 1); w.insert(w.end(), R, 2); eq("cat", str(v), str(w)); bound<L, -1>(v); bound<L, 0>(v); bound<L, 1>(v); bound<L, 2>(v); bound<L, 3>(v); boundr<G, -1>(g); boundr<G, 0>(g); boundr<G, 1>(g); boundr<G, 2>(g); boundr<G, 3>(g); } };
template<int I> struct Go { static void run() { Srt<I / 16, I / 4 % 4, I % 4>::run(); Go<I + 1>::run(); } }; template<> struct Go<64> { static void run() {} };
MC_SECTION(bounds) { Go<0>::run(); Srt<5, 0, 4>::run(); Srt<1, 7, 0>::run(); Srt<0, 3, 6>::run(); Srt<8, 8, 9>::run(); }
#define FUN2(NAME, OP) { typedef ty::NAME<std::integral_constant<long, P>, std::integral_constant<long, Q> > R; eq(#NAME, long(R::value), long(long(P) OP long(Q))); eq(#NAME "_", long(ty::apply<ty::NAME##_, std::integral_constant<long, P>, std::integral_constant<long, Q> >::type::value), long(long(P) OP long(Q))); }
template<int P, int Q, bool NZ = (Q != 0)> struct Dv { static void run() { FUN2(divides, /) FUN2(modulus, %) } }; template<int P, int Q> struct Dv<P, Q, false> { static void run() {} };
template<int P, int Q> struct Opr { static void run() { MC_STATE(str(P) + " " + str(Q)); trace(); FUN2(plus, +) FUN2(minus, -) FUN2(multiplies, *) FUN2(equal_to, ==) FUN2(not_equal_to, !=) FUN2(less, <) FUN2(less_equal, <=) FUN2(greater, >) FUN2(greater_equal, >=) Dv<P, Q>::run(); eq("negate", long(ty::negate<X<P> >::value), -long(P)); eq("posite", long(ty::posite<X<P> >::value), long(P)); eq("mixed type", std::is_same<typename ty::plus<X<P>, std::integral_constant<long, Q> >::value_type, long>::value && long(ty::plus<X<P>, std::integral_constant<long, Q> >::value) == P + Q, true); } };
template<int I> struct Ops { static void run() { Opr<I / 7 - 3, I % 7 - 3>::run(); Ops<I + 1>::run(); } }; template<> struct Ops<49> { static void run() {} };
MC_SECTION(operators) { Ops<0>::run(); }
SPROUT_TYPES_STRING_TYPEDEF("hello", hello_t); SPROUT_TYPES_STRING_TYPEDEF("", none_t);
template<int N> struct Uni { static void run() { typedef ty::uniform_types<X<4>, N> U; MC_STATE("uniform " + str(N)); trace(); eq("size", long(ty::size<U>::value), long(N)); eq("back", long(ty::back<U>::type::value), 4L); eq("push", long(ty::size<typename ty::push_back<U, X<4> >::type>::value), N + 1L); eq("count", long(ty::count<U, X<4> >::value), long(N)); eq("pop", long(ty::size<typename ty::pop_back<typename ty::push_back<U, X<4> >::type>::type>::value), long(N)); eq("distance", long(ty::distance<typename U::begin, typename U::end>::value), long(N)); Uni<N - 1>::run(); } }; template<> struct Uni<0> { static void run() {} };
MC_SECTION(strings) { Uni<9>::run(); MC_STATE("strings"); trace(); same<hello_t, ty::basic_string<char, 'h', 'e', 'l', 'l', 'o'> >("string"); same<none_t, ty::basic_string<char> >("string empty"); eq("string size", long(ty::size<hello_t>::value), 5L); eq("string find", long(ty::find_index<hello_t, sprout::integral_constant<char, 'l'> >::value), 2L); }
#else
template<class T> W seq(T F, T L, long st) { W w; if (st > 0) for (long x = F; x < long(L); x += st) w.push_back(x); else for (long x = F; x > long(L); x += st) w.push_back(x); return w; }
template<int N> struct Mk { static void run() { W w; for (int i = 0; i < N; ++i) w.push_back(i); MC_STATE("make " + str(N)); trace(); list<typename sprout::make_index_tuple<N>::type>("make_index_tuple", w); list<typename sprout::make_uindex_tuple<N>::type>("make_uindex_tuple", w); list<decltype(sprout::make_index_tuple<N>::make())>("make", w); list<sprout::make_integer_sequence<short, N> >("make_integer_sequence", w); list<sprout::make_index_sequence<N> >("make_index_sequence", w); list<typename sprout::index_n<3, N>::type>("index_n", W(N, 3)); list<typename sprout::uindex_n<2, N>::type>("uindex_n", W(N, 2)); list<typename sprout::integer_n<signed char, -1, N>::type>("integer_n", W(N, -1)); list<typename sprout::index_range<0, N>::type>("index_range", w); eq("size", long(sprout::make_index_tuple<N>::type::size()), long(N)); Mk<N - 1>::run(); } }; template<> struct Mk<-1> { static void run() {} };
MC_SECTION(makes) { Mk<70>::run(); W w; for (int i = 0; i < 300; ++i) w.push_back(i); MC_STATE("make large"); trace(); list<sprout::make_index_tuple<300>::type>("make_index_tuple", w); list<sprout::index_range<0, 257>::type>("index_range", W(w.begin(), w.begin() + 257)); }
template<int F, int L, int St, bool OK = (F < L && St > 0) || (F > L && St < 0) || (F == L && St != 0)> struct Rg { static void run() { MC_STATE("range " + str(F) + " " + str(L) + " " + str(St)); trace(); W w = seq(F, L, St); list<typename sprout::index_range<F, L, St>::type>("index_range", w); list<typename sprout::integer_range<long long, F, L, St>::type>("integer_range", w); list<typename sprout::integer_range<signed char, F, L, St>::type>("integer_range char", w); u(std::integral_constant<bool, F >= 0 && L >= 0>()); }
	static void u(std::true_type) { W w = seq(F, L, St); list<typename sprout::uindex_range<(F < 0 ? 0 : F), (L < 0 ? 0 : L), St>::type>("uindex_range", w); list<typename sprout::integer_range<unsigned char, (F < 0 ? 0 : F), (L < 0 ? 0 : L), St>::type>("integer_range unsigned char", w); } static void u(std::false_type) {} };
template<int F, int L, int St> struct Rg<F, L, St, false> { static void run() {} };
template<int I> struct Rs { static void run() { enum { F = I / 10 - 4, L = I % 10 - 4 }; Rg<F, L, 1>::run(); Rg<F, L, 2>::run(); Rg<F, L, 3>::run(); Rg<F, L, 7>::run(); Rg<F, L, -1>::run(); Rg<F, L, -2>::run(); Rg<F, L, -3>::run(); Rg<F, L, -9>::run(); MC_STATE("default " + str(int(F)) + " " + str(int(L))); trace(); list<typename sprout::index_range<F, L>::type>("index_range default", seq(int(F), int(L), F <= L ? 1 : -1)); Rs<I + 1>::run(); } }; template<> struct Rs<100> { static void run() {} };
MC_SECTION(ranges) { Rs<0>::run(); Rg<0, 120, 1>::run(); Rg<-100, 27, 1>::run(); Rg<120, 0, -1>::run(); Rg<0, 100, 7>::run(); Rg<100, 0, -7>::run(); Rg<-50, 50, 3>::run(); Rg<50, -50, -3>::run(); MC_STATE("wide"); trace(); list<sprout::integer_range<unsigned char, 0, 255, 1>::type>("integer_range full", seq(0, 255, 1)); list<sprout::integer_range<unsigned char, 255, 0, -1>::type>("integer_range full", seq(255, 0, -1)); list<sprout::integer_range<signed char, -128, 127, 1>::type>("integer_range full", seq(-128, 127, 1)); list<sprout::integer_range<signed char, 127, -128, -1>::type>("integer_range full", seq(127, -128, -1)); list<sprout::integer_range<unsigned char, 0, 200, 100>::type>("integer_range wide step", seq(0, 200, 100)); list<sprout::integer_range<signed char, -100, 100, 3>::type>("integer_range wide step", seq(-100, 100, 3)); list<sprout::integer_range<signed char, -128, 127, 127>::type>("integer_range wide step", seq(-128, 127, 127)); list<sprout::integer_range<unsigned char, 250, 3, -50>::type>("integer_range wide step", seq(250, 3, -50)); list<sprout::integer_range<signed char, 100, -100, -9>::type>("integer_range wide step", seq(100, -100, -9)); }
template<class... T> struct Pk { static void run() { W w; for (std::size_t i = 0; i < sizeof...(T); ++i) w.push_back(i); MC_STATE("pack " + str(sizeof...(T))); trace(); list<typename sprout::index_pack<T...>::type>("index_pack", w); list<typename sprout::uindex_pack<T...>::type>("uindex_pack", w); list<typename sprout::integer_pack<short, T...>::type>("integer_pack", w); list<sprout::index_sequence_for<T...> >("index_sequence_for", w); list<typename sprout::tuple_indexes<std::tuple<T...> >::type>("tuple_indexes", w); list<typename sprout::tuple_indexes<sprout::tuple<T...> >::type>("tuple_indexes", w); } };
MC_SECTION(packs) { Pk<>::run(); Pk<int>::run(); Pk<int, int>::run(); Pk<int, S, char>::run(); Pk<int, int, int, int, int, int, int>::run(); Pk<int, int, int, int, int, int, int, void*, W, S, int>::run(); using namespace sprout::literals::indexes; MC_STATE("literals"); trace(); W w; list<decltype(0_indexes)>("literal", w); for (int i = 0; i < 12; ++i) w.push_back(i); list<decltype(12_indexes)>("literal", w); list<decltype(12_uindexes)>("literal", w); list<decltype(sprout::make_indexes<sprout::make_index_tuple<12> >())>("make_indexes", w); }
#endif
