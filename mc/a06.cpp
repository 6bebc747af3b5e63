// A06: the range form of every algorithm against its iterator form (which A01-A05, A07 decide), over several kinds of range.
#include "mc.hpp"
#include "preds.hpp"
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/random.hpp>
using namespace mc;
typedef std::vector<int> V;
namespace R = sprout::range;

// ---- the kinds of range
template<int N> struct KArr { sprout::array<int, (N > 0 ? N : 1)> s; typedef sprout::array<int, N> T; T a; explicit KArr(V const& v) : s(), a() { for (int i = 0; i < N; ++i) a[i] = v[i]; }
	T& get() { return a; } T const& cget() const { return a; } V all() const { return V(a.begin(), a.end()); } static const char* n() { return "array"; } };
template<int N> struct KCArr { typedef int T[N]; T a; explicit KCArr(V const& v) { for (int i = 0; i < N; ++i) a[i] = v[i]; }
	T& get() { return a; } T const& cget() const { return a; } V all() const { return V(a, a + N); } static const char* n() { return "C array"; } };
template<int N> struct KSub { typedef sprout::array<int, N + 3> B; typedef sprout::sub_array<B> T; T a;
	static B mk(V const& v) { B b; b.fill(-5); for (int i = 0; i < N; ++i) b[i + 1] = v[i]; return b; }
	explicit KSub(V const& v) : a(mk(v), 1, 1 + N) {}
	T& get() { return a; } T const& cget() const { return a; } V all() const { return V(a.get_internal().begin(), a.get_internal().end()); } static const char* n() { return "sub_array"; } };
template<int N> struct KRng { std::vector<int> b; typedef R::range_container<int*> T; T a; explicit KRng(V const& v) : b(), a(0, 0) { b.push_back(-5); b.insert(b.end(), v.begin(), v.end()); b.push_back(-5); a = T(&b[1], &b[1] + N); }
	KRng(KRng const&) = delete;
	T& get() { return a; } T const& cget() const { return a; } V all() const { return b; } static const char* n() { return "range_container"; } };
template<int N> struct KPtr { std::vector<int> b; typedef decltype(R::make_ptr_range((int*)0, 0)) T; T a; explicit KPtr(V const& v) : b(), a() { b.push_back(-5); b.insert(b.end(), v.begin(), v.end()); b.push_back(-5); a = R::make_ptr_range(&b[1], N); }
	KPtr(KPtr const&) = delete;
	T& get() { return a; } T const& cget() const { return a; } V all() const { return b; } static const char* n() { return "ptr_range"; } };

// ---- normal form of a result: positions relative to the begins of the first / second range
template<class B1, class B2> struct Norm {
	B1 b1; B2 b2;
	std::string operator()(bool x) const { return str(x); }
	std::string operator()(int x) const { return str(x); }
	std::string operator()(long x) const { return str(x); }
	std::string operator()(B1 x) const { return "@" + str((int)(x - b1)); }
	template<class A, class B> std::string operator()(sprout::pair<A, B> const& p) const { return "(" + (*this)(p.first) + "," + second(p.second) + ")"; }
	std::string operator()(R::range_container<B1> const& r) const { return "[" + (*this)(r.begin()) + "," + (*this)(r.end()) + ")"; }
	template<class X> typename std::enable_if<!std::is_same<X, B2>::value, std::string>::type second(X const& x) const { return (*this)(x); }
	std::string second(B2 x) const { return "@" + str((int)(x - b2)) ; }
};
template<class B1, class B2> Norm<B1, B2> norm(B1 a, B2 b) { Norm<B1, B2> n = {a, b}; return n; }
// pairs into one range: both from b1
template<class B1> struct Norm1 {
	B1 b1;
	std::string operator()(bool x) const { return str(x); }
	std::string operator()(int x) const { return str(x); }
	std::string operator()(long x) const { return str(x); }
	std::string operator()(B1 x) const { return "@" + str((int)(x - b1)); }
	template<class A, class B> std::string operator()(sprout::pair<A, B> const& p) const { return "(" + (*this)(p.first) + "," + (*this)(p.second) + ")"; }
	std::string operator()(R::range_container<B1> const& r) const { return "[" + (*this)(r.begin()) + "," + (*this)(r.end()) + ")"; }
};
#define Q(f, ...) eq("range::" #f, n1(R::f(__VA_ARGS__)), n1(sprout::f IT(__VA_ARGS__)))
#define COMMA ,
// one range: r stands for the range, (b, e) for its iterators
#define Q0(f) eq("range::" #f, n1(R::f(r)), n1(sprout::f(b, e)))
#define Q1(f, ...) eq("range::" #f, n1(R::f(r, __VA_ARGS__)), n1(sprout::f(b, e, __VA_ARGS__)))
#define QE(f, ...) do { auto p_ = sprout::f(b, e, __VA_ARGS__); eq("range::" #f, n1(R::f(r, __VA_ARGS__)), "[" + n1(p_.first) + "," + n1(p_.second) + ")"); } while (0)
#define V0(f) do { Q0(f); eq("range::" #f " found_end", n1(R::f<R::return_found_end>(r)), "[" + n1(sprout::f(b, e)) + "," + n1(e) + ")"); eq("range::" #f " begin_found", n1(R::f<R::return_begin_found>(r)), "[@0," + n1(sprout::f(b, e)) + ")"); eq("range::" #f " found", n1(R::f<R::return_found>(r)), n1(sprout::f(b, e))); } while (0)
#define V1(f, ...) do { Q1(f, __VA_ARGS__); eq("range::" #f " found_end", n1(R::f<R::return_found_end>(r, __VA_ARGS__)), "[" + n1(sprout::f(b, e, __VA_ARGS__)) + "," + n1(e) + ")"); eq("range::" #f " begin_found", n1(R::f<R::return_begin_found>(r, __VA_ARGS__)), "[@0," + n1(sprout::f(b, e, __VA_ARGS__)) + ")"); } while (0)
#define T0(f) eq("range::" #f, n2(R::f(r, q)), n2(sprout::f(b, e, c, d)))
#define T1(f, ...) eq("range::" #f, n2(R::f(r, q, __VA_ARGS__)), n2(sprout::f(b, e, c, d, __VA_ARGS__)))
#define TV0(f) do { eq("range::" #f, n1(R::f(r, q)), n1(sprout::f(b, e, c, d))); eq("range::" #f " found_end", n1(R::f<R::return_found_end>(r, q)), "[" + n1(sprout::f(b, e, c, d)) + "," + n1(e) + ")"); eq("range::" #f " begin_found", n1(R::f<R::return_begin_found>(r, q)), "[@0," + n1(sprout::f(b, e, c, d)) + ")"); } while (0)
#define TV1(f, ...) do { eq("range::" #f, n1(R::f(r, q, __VA_ARGS__)), n1(sprout::f(b, e, c, d, __VA_ARGS__))); eq("range::" #f " found_end", n1(R::f<R::return_found_end>(r, q, __VA_ARGS__)), "[" + n1(sprout::f(b, e, c, d, __VA_ARGS__)) + "," + n1(e) + ")"); eq("range::" #f " begin_found", n1(R::f<R::return_begin_found>(r, q, __VA_ARGS__)), "[@0," + n1(sprout::f(b, e, c, d, __VA_ARGS__)) + ")"); } while (0)

struct Comb { constexpr int operator()(int a, int b) const { return 3 * a + b; } };
struct Neg { constexpr int operator()(int a) const { return 7 - a; } };
template<class Rg> void query1(Rg& r, const char* kind) {
	auto b = sprout::begin(r); auto e = sprout::end(r); typedef decltype(b) B; Norm1<B> n1 = {b};
	V v(b, e); int n = v.size();
	MC_STATE(std::string(kind) + " " + str(v));
	trace();
	V0(adjacent_find); V1(adjacent_find, Par()); Q0(is_decreasing); Q0(is_increasing); Q0(is_strictly_decreasing); Q0(is_strictly_increasing);
	Q0(is_sorted); Q1(is_sorted, Greater()); V0(is_sorted_until); V1(is_sorted_until, Greater()); Q0(is_heap); Q1(is_heap, Greater()); V0(is_heap_until); V1(is_heap_until, Greater());
	V0(max_element); V1(max_element, ParLess()); V0(min_element); V1(min_element, ParLess());
	Q0(minmax_element); Q1(minmax_element, ParLess());
	{ auto m = sprout::minmax_element(b, e); auto g = R::minmax_element<R::return_found_end>(r); eq("range::minmax_element found_end", n1(g), "([" + n1(m.first) + "," + n1(e) + "),[" + n1(m.second) + "," + n1(e) + "))");
	  auto h = R::minmax_element<R::return_begin_found>(r, Less()); eq("range::minmax_element begin_found", n1(h), "([@0," + n1(m.first) + "),[@0," + n1(m.second) + "))"); }
	eq("range::accumulate", R::accumulate(r, 4), sprout::accumulate(b, e, 4)); eq("range::accumulate(op)", R::accumulate(r, 4, Comb()), sprout::accumulate(b, e, 4, Comb()));
	if (n) eq("range::reduce", R::reduce(r), sprout::reduce(b, e));
	eq("range::reduce(init)", R::reduce(r, 4), sprout::reduce(b, e, 4)); eq("range::reduce(op)", R::reduce(r, 4, sprout::multiplies<>()), sprout::reduce(b, e, 4, sprout::multiplies<>()));
	eq("range::transform_reduce", R::transform_reduce(r, 4, sprout::plus<>(), Neg()), sprout::transform_reduce(b, e, 4, sprout::plus<>(), Neg()));
	for (int k = 0; k < 3; ++k) {
		Q1(all_of, Is(k)); Q1(any_of, Is(k)); Q1(none_of, Is(k)); Q1(one_of, Is(k)); Q1(all_of_equal, k); Q1(any_of_equal, k); Q1(none_of_equal, k); Q1(one_of_equal, k);
		Q1(count, k); Q1(count_if, Ge(k)); V1(find, k); V1(find_if, Is(k)); V1(find_if_not, Is(k)); Q1(is_partitioned, Is(k));
		for (int c = 0; c < 4; ++c) { V1(search_n, c, k); V1(search_n, c, k, Par()); }
		if (std::is_sorted(v.begin(), v.end())) { Q1(binary_search, k); V1(lower_bound, k); V1(upper_bound, k); QE(equal_range, k); Q1(binary_search, k, Less()); V1(lower_bound, k, Less()); V1(upper_bound, k, Less()); QE(equal_range, k, Less()); }
		if (std::is_sorted(v.rbegin(), v.rend())) { Q1(binary_search, k, Greater()); V1(lower_bound, k, Greater()); V1(upper_bound, k, Greater()); QE(equal_range, k, Greater()); Q1(partition_point, Ge(k)); }
	}
}
template<class Rg, class Sg> void query2(Rg& r, Sg& q, const char* kind) {
	auto b = sprout::begin(r); auto e = sprout::end(r); auto c = sprout::begin(q); auto d = sprout::end(q); typedef decltype(b) B; Norm1<B> n1 = {b};
	auto n2 = norm(b, c);
	V v(b, e), w(c, d);
	MC_STATE(std::string(kind) + " " + str(v) + " with " + str(w));
	trace();
	eq("range::equal", R::equal(r, q), v == w); eq("range::equal(pred)", R::equal(r, q, Par()), v.size() == w.size() && std::equal(v.begin(), v.end(), w.begin(), Par()));
	TV0(find_end); TV1(find_end, Par()); TV0(find_first_of); TV1(find_first_of, Par()); TV0(search); TV1(search, Par());
	{ sprout::default_searcher<decltype(c)> sr(c, d); auto const& csr = sr; eq("range::search(searcher)", n1(R::search(r, csr)), n1(sprout::search(b, e, c, d))); eq("range::search(searcher)", n1(R::search(r, sr)), n1(sprout::search(b, e, c, d))); eq("range::search(searcher)", n1(R::search(r, sprout::default_searcher<decltype(c)>(c, d))), n1(sprout::search(b, e, c, d)));
	  eq("range::search(searcher) begin_found", n1(R::search<R::return_begin_found>(r, csr)), "[@0," + n1(sprout::search(b, e, c, d)) + ")"); }
	T0(lexicographical_compare); T1(lexicographical_compare, Greater()); T0(tristate_lexicographical_compare); T1(tristate_lexicographical_compare, Greater());
	for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { eq("range::tristate_lexicographical_compare(delim)", R::tristate_lexicographical_compare(r, x, q, y), sprout::tristate_lexicographical_compare(b, e, x, c, d, y)); eq("range::tristate_lexicographical_compare(delim,comp)", R::tristate_lexicographical_compare(r, x, q, y, Greater()), sprout::tristate_lexicographical_compare(b, e, x, c, d, y, Greater())); }
	{ std::size_t m = std::min(v.size(), w.size()); auto x = R::mismatch(r, q); std::size_t i = 0; while (i < m && v[i] == w[i]) ++i; eq("range::mismatch", n2(x), "(@" + str((int)i) + ",@" + str((int)i) + ")");
	  auto y = R::mismatch(r, q, Par()); i = 0; while (i < m && Par()(v[i], w[i])) ++i; eq("range::mismatch(pred)", n2(y), "(@" + str((int)i) + ",@" + str((int)i) + ")"); }
	{ eq("range::is_permutation", R::is_permutation(r, q), (v.size() == w.size() && std::is_permutation(v.begin(), v.end(), w.begin()))); eq("range::is_permutation(pred)", R::is_permutation(r, q, Par()), (v.size() == w.size() && std::is_permutation(v.begin(), v.end(), w.begin(), Par()))); }
	if (v.size() <= w.size()) { eq("range::inner_product", R::inner_product(r, q, 3), sprout::inner_product(b, e, c, 3)); eq("range::transform_reduce(2)", R::transform_reduce(r, q, 3), sprout::transform_reduce(b, e, c, 3)); eq("range::transform_reduce(2,op)", R::transform_reduce(r, q, 3, sprout::plus<>(), Comb()), sprout::transform_reduce(b, e, c, 3, sprout::plus<>(), Comb())); }
	if (std::is_sorted(v.begin(), v.end()) && std::is_sorted(w.begin(), w.end())) {
		T0(includes); T1(includes, Less()); T0(find_difference); T1(find_difference, Less()); T0(find_intersection); T1(find_intersection, Less()); T0(find_symmetric_difference); T1(find_symmetric_difference, Less());
		T0(next_difference); T1(next_difference, Less()); T0(next_intersection); T1(next_intersection, Less()); T0(next_symmetric_difference); T1(next_symmetric_difference, Less()); T0(next_union); T1(next_union, Less());
	}
}
// ---- modifying: run the range form and the iterator form on equal copies
#define BOTHM(name, rexpr, iexpr, res) do { K k1(v), k2(v); auto& r = k1.get(); auto& s = k2.get(); auto rb = sprout::begin(r); auto b = sprout::begin(s); auto e = sprout::end(s); (void)e; (void)rb; (void)b; \
	std::string x = res(rb, [&] { return rexpr; }), y = res(b, [&] { return iexpr; }); eq("range::" name, std::make_pair(k1.all(), x), std::make_pair(k2.all(), y)); } while (0)
template<class B, class F> std::string valued(B b, F f) { Norm1<B> n = {b}; return n(f()); }
template<class B, class F> std::string nothing(B, F f) { f(); return ""; }
#define M0(f) BOTHM(#f, R::f(r), sprout::f(b, e), nothing)
#define M1(f, ...) BOTHM(#f, R::f(r, __VA_ARGS__), sprout::f(b, e, __VA_ARGS__), nothing)
#define MV0(f) BOTHM(#f, R::f(r), sprout::f(b, e), valued)
#define MV1(f, ...) BOTHM(#f, R::f(r, __VA_ARGS__), sprout::f(b, e, __VA_ARGS__), valued)
#define MR1(f, ...) do { MV1(f, __VA_ARGS__); BOTHM(#f " found_end", R::f<R::return_found_end>(r, __VA_ARGS__), R::range_container<decltype(b)>(sprout::f(b, e, __VA_ARGS__), e), valued); BOTHM(#f " begin_found", R::f<R::return_begin_found>(r, __VA_ARGS__), R::range_container<decltype(b)>(b, sprout::f(b, e, __VA_ARGS__)), valued); } while (0)
#define MR0(f) do { MV0(f); BOTHM(#f " found_end", R::f<R::return_found_end>(r), R::range_container<decltype(b)>(sprout::f(b, e), e), valued); BOTHM(#f " begin_found", R::f<R::return_begin_found>(r), R::range_container<decltype(b)>(b, sprout::f(b, e)), valued); } while (0)
#define OUT(f, m, ...) do { int o1[2 * m + 4], o2[2 * m + 4]; std::fill(o1, o1 + 2 * m + 4, -9); std::fill(o2, o2 + 2 * m + 4, -9); \
	auto p1 = R::f(r, o1 + 1, ##__VA_ARGS__); auto p2 = sprout::f(b, e, o2 + 1, ##__VA_ARGS__); eq("range::" #f "(out)", std::make_pair(V(o1, o1 + 2 * m + 4), (int)(p1 - o1)), std::make_pair(V(o2, o2 + 2 * m + 4), (int)(p2 - o2))); } while (0)
#define OUTP(f, m, ...) do { int o1[2 * m + 4], o2[2 * m + 4]; std::fill(o1, o1 + 2 * m + 4, -9); std::fill(o2, o2 + 2 * m + 4, -9); \
	auto p1 = R::f(r, o1 + 1, ##__VA_ARGS__); auto p2 = sprout::f(b, e, o2 + 1, ##__VA_ARGS__).second; eq("range::" #f "(out)", std::make_pair(V(o1, o1 + 2 * m + 4), (int)(p1 - o1)), std::make_pair(V(o2, o2 + 2 * m + 4), (int)(p2 - o2))); } while (0)
#define OUT2(f, m, ...) do { int o1[2 * m + 4], o2[2 * m + 4]; std::fill(o1, o1 + 2 * m + 4, -9); std::fill(o2, o2 + 2 * m + 4, -9); \
	auto p1 = R::f(r, q, o1 + 1, ##__VA_ARGS__); auto p2 = sprout::f(b, e, c, d, o2 + 1, ##__VA_ARGS__); eq("range::" #f "(out)", std::make_pair(V(o1, o1 + 2 * m + 4), (int)(p1 - o1)), std::make_pair(V(o2, o2 + 2 * m + 4), (int)(p2 - o2))); } while (0)
#define BACK(f, m) do { int o1[m + 2], o2[m + 2]; std::fill(o1, o1 + m + 2, -9); std::fill(o2, o2 + m + 2, -9); \
	auto p1 = R::f(r, o1 + 1 + m); auto p2 = sprout::f(b, e, o2 + 1 + m); eq("range::" #f "(out)", std::make_pair(V(o1, o1 + m + 2), (int)(p1 - o1)), std::make_pair(V(o2, o2 + m + 2), (int)(p2 - o2))); } while (0)
struct Gen { int n; int operator()() { return 40 + n++; } };
struct Rand { unsigned operator()(unsigned n) const { return n / 2; } };
struct Sum { int s; void operator()(int& x) { s += x; x += 10; } };
template<class K, int N> void modify(V const& v) {
	MC_STATE(std::string(K::n()) + " " + str(v));
	trace();
	M0(sort); M1(sort, Greater()); M0(stable_sort); M1(stable_sort, ParLess()); M0(reverse); M0(make_heap); M1(make_heap, Greater());
	V h(v);
	if (N) { if (std::is_heap(v.begin(), v.end())) { M0(pop_heap); M0(sort_heap); M1(pop_heap, Less()); M1(sort_heap, Less()); } if (std::is_heap(v.begin(), v.end() - 1)) { M0(push_heap); M1(push_heap, Less()); } 
		if (std::is_heap(v.begin(), v.end(), Greater())) { M1(pop_heap, Greater()); M1(sort_heap, Greater()); } if (std::is_heap(v.begin(), v.end() - 1, Greater())) M1(push_heap, Greater()); }
	MV0(next_permutation); MV0(prev_permutation); MV1(next_permutation, Greater()); MV1(prev_permutation, Greater());
	MR0(unique); MR1(unique, Par());
	for (int k = 0; k < 3; ++k) {
		M1(fill, k); MR1(remove, k); MR1(remove_if, Is(k)); M1(replace, k, 9); M1(replace_if, Is(k), 9); MR1(partition, Is(k)); MR1(stable_partition, Is(k)); 
#ifdef IOTA
		M1(iota, k);
#endif
	}
	M1(generate, Gen{0});
	BOTHM("iota", R::iota(r, 5), sprout::iota(b, e, 5), nothing);
	BOTHM("for_each", R::for_each(r, Sum{0}).s, sprout::for_each(b, e, Sum{0}).s, valued);
	M1(shuffle, sprout::random::minstd_rand0(3));
#if __cplusplus < 201703L || 1
	M1(random_shuffle, Rand());
#endif
	M1(random_swap, sprout::random::minstd_rand0(3));
	if (N && N < 4) { M1(bogo_sort, sprout::random::minstd_rand0(3)); M1(bozo_sort, sprout::random::minstd_rand0(3)); M1(bogo_sort, sprout::random::minstd_rand0(3), Greater()); M1(bozo_sort, sprout::random::minstd_rand0(3), Greater()); }
	for (int k = 0; k <= N; ++k) {
		BOTHM("rotate", R::rotate(r, rb + k), sprout::rotate(b, b + k, e), valued); BOTHM("rotate found_end", R::rotate<R::return_found_end>(r, rb + k), (R::range_container<decltype(b)>(sprout::rotate(b, b + k, e), e)), valued);
		BOTHM("partial_sort", R::partial_sort(r, rb + k), sprout::partial_sort(b, b + k, e), nothing); BOTHM("partial_sort(comp)", R::partial_sort(r, rb + k, Greater()), sprout::partial_sort(b, b + k, e, Greater()), nothing);
		BOTHM("nth_element", R::nth_element(r, rb + k), sprout::nth_element(b, b + k, e), nothing); BOTHM("nth_element(comp)", R::nth_element(r, rb + k, Greater()), sprout::nth_element(b, b + k, e, Greater()), nothing);
		BOTHM("gather", R::gather(r, rb + k, Is(1)), sprout::gather(b, e, b + k, Is(1)), valued);
		if (std::is_sorted(v.begin(), v.begin() + k) && std::is_sorted(v.begin() + k, v.end())) BOTHM("inplace_merge", R::inplace_merge(r, rb + k), sprout::inplace_merge(b, b + k, e), nothing);
		if (std::is_sorted(v.begin(), v.begin() + k, Greater()) && std::is_sorted(v.begin() + k, v.end(), Greater())) BOTHM("inplace_merge(comp)", R::inplace_merge(r, rb + k, Greater()), sprout::inplace_merge(b, b + k, e, Greater()), nothing);
	}
	for (int m = 0; m <= N + 1; ++m) {
		K k1(v); auto& r = k1.get(); auto b = sprout::begin(r), e = sprout::end(r); V o1(m, -9), o2(m, -9); R::range_container<int*> x(o1.data(), o1.data() + m); Norm1<int*> n = {o1.data()};
		std::string g = n(R::partial_sort_copy(r, x)); int y = sprout::partial_sort_copy(b, e, o2.data(), o2.data() + m) - o2.data(); eq("range::partial_sort_copy", std::make_pair(o1, g), std::make_pair(o2, "@" + str(y)));
		g = n(R::partial_sort_copy(r, x, Greater())); y = sprout::partial_sort_copy(b, e, o2.data(), o2.data() + m, Greater()) - o2.data(); eq("range::partial_sort_copy(comp)", std::make_pair(o1, g), std::make_pair(o2, "@" + str(y)));
		g = n(R::partial_sort_copy<R::return_found_end>(r, x)); y = sprout::partial_sort_copy(b, e, o2.data(), o2.data() + m) - o2.data(); eq("range::partial_sort_copy found_end", std::make_pair(o1, g), std::make_pair(o2, "[@" + str(y) + ",@" + str(m) + ")"));
	}
	{ K k1(v), k2(v), l1(V(v.rbegin(), v.rend())), l2(V(v.rbegin(), v.rend())); auto b2 = sprout::begin(l1.get()); Norm1<decltype(b2)> n = {b2}; std::string g = n(R::swap_ranges(k1.get(), l1.get()));
	  auto c = sprout::begin(l2.get()); auto y = sprout::swap_ranges(sprout::begin(k2.get()), sprout::end(k2.get()), c); Norm1<decltype(b2)> n_ = {c}; eq("range::swap_ranges", std::make_pair(std::make_pair(k1.all(), l1.all()), g), std::make_pair(std::make_pair(k2.all(), l2.all()), n_(y))); }
	K k0(v); auto const& r = k0.cget(); auto b = sprout::begin(r); auto e = sprout::end(r);
	OUT(copy, N); OUT(move, N); BACK(copy_backward, N); BACK(move_backward, N); OUT(reverse_copy, N); OUT(unique_copy, N); OUT(unique_copy, N, Par()); OUT(transform, N, Neg());
	OUT(clamp_range, N, 1, 1); OUT(clamp_range, N, 2, 1, Greater());
	for (int k = 0; k < 3; ++k) { OUT(copy_if, N, Is(k)); OUTP(copy_while, N, Is(k)); OUTP(copy_until, N, Is(k)); OUT(remove_copy, N, k); OUT(remove_copy_if, N, Is(k)); OUT(replace_copy, N, k, 9); OUT(replace_copy_if, N, Is(k), 9); { int o1[2 * N + 4], o2[2 * N + 4]; std::fill(o1, o1 + 2 * N + 4, -9); std::fill(o2, o2 + 2 * N + 4, -9);
		auto p1 = R::partition_copy(r, o1 + 1, o1 + N + 2, Is(k)); auto p2 = sprout::partition_copy(b, e, o2 + 1, o2 + N + 2, Is(k)); eq("range::partition_copy(out)", std::make_pair(V(o1, o1 + 2 * N + 4), V{(int)(p1.first - o1), (int)(p1.second - o1)}), std::make_pair(V(o2, o2 + 2 * N + 4), V{(int)(p2.first - o2), (int)(p2.second - o2)})); } }
	OUT(partial_sum, N); OUT(partial_sum, N, Comb()); OUT(adjacent_difference, N); OUT(adjacent_difference, N, Comb()); OUT(exclusive_scan, N, 4); OUT(exclusive_scan, N, 4, Comb()); OUT(inclusive_scan, N); OUT(inclusive_scan, N, Comb()); OUT(inclusive_scan, N, Comb(), 4);
	OUT(transform_exclusive_scan, N, 4, Comb(), Neg()); OUT(transform_inclusive_scan, N, Comb(), Neg()); OUT(transform_inclusive_scan, N, Comb(), Neg(), 4);
	for (int m = 0; m <= N; ++m) { sprout::random::minstd_rand0 g1(5), g2(5); int o1[N + 2], o2[N + 2]; std::fill(o1, o1 + N + 2, -9); std::fill(o2, o2 + N + 2, -9);
		auto p1 = R::sample(r, o1 + 1, m, g1); auto p2 = sprout::sample(b, e, o2 + 1, m, g2); eq("range::sample", std::make_pair(V(o1, o1 + N + 2), (int)(p1 - o1)), std::make_pair(V(o2, o2 + N + 2), (int)(p2 - o2))); }
	for (int k = 0; k <= N; ++k) { int o1[N + 2], o2[N + 2]; std::fill(o1, o1 + N + 2, -9); std::fill(o2, o2 + N + 2, -9);
		auto p1 = R::rotate_copy(r, b + k, o1 + 1); auto p2 = sprout::rotate_copy(b, b + k, e, o2 + 1); eq("range::rotate_copy", std::make_pair(V(o1, o1 + N + 2), (int)(p1 - o1)), std::make_pair(V(o2, o2 + N + 2), (int)(p2 - o2))); }
}
template<class K, class L, int N, int M> void output2(V const& v, V const& w) {
	K k1(v); L k2(w); auto const& r = k1.cget(); auto const& q = k2.cget(); auto b = sprout::begin(r); auto e = sprout::end(r); auto c = sprout::begin(q); auto d = sprout::end(q);
	MC_STATE(std::string(K::n()) + " " + str(v) + " with " + str(w));
	trace();
	if (std::is_sorted(v.begin(), v.end()) && std::is_sorted(w.begin(), w.end())) {
		OUT2(merge, (N + M)); OUT2(merge, (N + M), Less()); OUT2(set_union, (N + M)); OUT2(set_union, (N + M), Less()); OUT2(set_intersection, (N + M)); OUT2(set_intersection, (N + M), Less());
		OUT2(set_difference, (N + M)); OUT2(set_difference, (N + M), Less()); OUT2(set_symmetric_difference, (N + M)); OUT2(set_symmetric_difference, (N + M), Less());
	}
	if (N <= M) { int o1[N + 2], o2[N + 2]; std::fill(o1, o1 + N + 2, -9); std::fill(o2, o2 + N + 2, -9); auto p1 = R::transform(r, q, o1 + 1, Comb()); auto p2 = sprout::transform(b, e, c, o2 + 1, Comb()); eq("range::transform(2)", std::make_pair(V(o1, o1 + N + 2), (int)(p1 - o1)), std::make_pair(V(o2, o2 + N + 2), (int)(p2 - o2))); }
}
// ---- fixed and fit forms
typedef sprout::array<int, 4> D4;
static D4 marks() { return D4{{50, 51, 52, 53}}; }
static V cont(D4 const& a) { return V(a.begin(), a.end()); }
static std::pair<V, std::pair<int, int> > cont(sprout::sub_array<D4> const& a) { return std::make_pair(V(a.get_internal().begin(), a.get_internal().end()), std::make_pair((int)a.to_first(), (int)a.to_last())); }
#define X(f, ...) do { D4 o = marks(); eq("range::fixed::" #f, cont(R::fixed::f(r, o, ##__VA_ARGS__)), cont(sprout::fixed::f(b, e, o, ##__VA_ARGS__))); eq("range::fit::" #f, cont(R::fit::f(r, o, ##__VA_ARGS__)), cont(sprout::fit::f(b, e, o, ##__VA_ARGS__))); eq("range::" #f "(container)", cont(R::f(r, o, ##__VA_ARGS__)), cont(sprout::f(b, e, o, ##__VA_ARGS__))); \
	eq("range::fixed::" #f "<Result>", cont(R::fixed::f<D4>(r, ##__VA_ARGS__)), cont(sprout::fixed::f<D4>(b, e, ##__VA_ARGS__))); } while (0)
#define XN(f, ...) do { D4 o = marks(); eq("range::fixed::" #f, cont(R::fixed::f(r, o, ##__VA_ARGS__)), cont(sprout::fixed::f(b, e, o, ##__VA_ARGS__))); eq("range::" #f "(container)", cont(R::f(r, o, ##__VA_ARGS__)), cont(sprout::f(b, e, o, ##__VA_ARGS__))); \
	eq("range::fixed::" #f "<Result>", cont(R::fixed::f<D4>(r, ##__VA_ARGS__)), cont(sprout::fixed::f<D4>(b, e, ##__VA_ARGS__))); } while (0)
#define X2(f, ...) do { D4 o = marks(); eq("range::fixed::" #f, cont(R::fixed::f(r, q, o, ##__VA_ARGS__)), cont(sprout::fixed::f(b, e, c, d, o, ##__VA_ARGS__))); eq("range::fit::" #f, cont(R::fit::f(r, q, o, ##__VA_ARGS__)), cont(sprout::fit::f(b, e, c, d, o, ##__VA_ARGS__))); \
	eq("range::fixed::" #f "<Result>", cont(R::fixed::f<D4>(r, q, ##__VA_ARGS__)), cont(sprout::fixed::f<D4>(b, e, c, d, ##__VA_ARGS__))); } while (0)
template<class K, int N> void fixed1(V const& v) {
	K k0(v); auto const& r = k0.cget(); auto b = sprout::begin(r); auto e = sprout::end(r);
	MC_STATE(std::string(K::n()) + " " + str(v));
	trace();
	X(copy); X(copy_backward); X(reverse_copy); X(unique_copy); X(unique_copy, Par()); X(transform, Neg()); X(clamp_range_copy, 1, 2); X(clamp_range_copy, 2, 1, Greater());
	for (int k = 0; k < 3; ++k) { X(copy_if, Is(k)); X(copy_while, Is(k)); X(copy_until, Is(k)); X(remove_copy, k); X(remove_copy_if, Is(k)); X(replace_copy, k, 9); X(replace_copy_if, Is(k), 9); X(partition_copy, Is(k)); X(stable_partition_copy, Is(k)); }
	X(partial_sum); X(partial_sum, Comb()); X(adjacent_difference); X(adjacent_difference, Comb()); X(exclusive_scan, 4); X(exclusive_scan, 4, Comb()); X(inclusive_scan); X(inclusive_scan, Comb()); X(inclusive_scan, Comb(), 4);
	X(transform_exclusive_scan, 4, Comb(), Neg()); X(transform_inclusive_scan, Comb(), Neg()); X(transform_inclusive_scan, Comb(), Neg(), 4);
	for (int k = 0; k <= N; ++k) { D4 o = marks();
		eq("range::fixed::rotate_copy", cont(R::fixed::rotate_copy(r, b + k, o)), cont(sprout::fixed::rotate_copy(b, b + k, e, o))); eq("range::fit::rotate_copy", cont(R::fit::rotate_copy(r, b + k, o)), cont(sprout::fit::rotate_copy(b, b + k, e, o)));
		eq("range::fixed::rotate_copy<Result>", cont(R::fixed::rotate_copy<D4>(r, b + k)), cont(sprout::fixed::rotate_copy<D4>(b, b + k, e)));
		for (int j = 0; j < N; ++j) if (k < N) X(swap_element_copy, b + k, b + j); }
}
template<class K, class L, int N, int M> void fixed2(V const& v, V const& w) {
	K k1(v); L k2(w); auto const& r = k1.cget(); auto const& q = k2.cget(); auto b = sprout::begin(r); auto e = sprout::end(r); auto c = sprout::begin(q); auto d = sprout::end(q);
	MC_STATE(std::string(K::n()) + " " + str(v) + " with " + str(w));
	trace();
	X2(merge); X2(merge, Less()); X2(set_union); X2(set_union, Less()); X2(set_intersection); X2(set_intersection, Less()); X2(set_difference); X2(set_difference, Less()); X2(set_symmetric_difference); X2(set_symmetric_difference, Less());
	if (N <= M) { D4 o = marks(); eq("range::fixed::transform(2)", cont(R::fixed::transform(r, q, o, Comb())), cont(sprout::fixed::transform(b, e, c, o, Comb()))); eq("range::fit::transform(2)", cont(R::fit::transform(r, q, o, Comb())), cont(sprout::fit::transform(b, e, c, o, Comb()))); eq("range::fixed::transform(2)<Result>", cont(R::fixed::transform<D4>(r, q, Comb())), cont(sprout::fixed::transform<D4>(b, e, c, Comb()))); }
}
// ---- drivers
template<int N> struct seqs { template<class F> static void each(F f) { sequences(N, 3, [&](V const& v) { f(v); }); } };
static bool sorted(V const& v) { return std::is_sorted(v.begin(), v.end()); }
#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
template<template<int> class K, int N> void q1() { seqs<N>::each([](V const& v) { K<N> k(v); query1(k.get(), K<N>::n()); K<N> const& c = k; query1(c.cget(), (std::string("const ") + K<N>::n()).c_str()); }); }
#define SEC(kind, lo) MC_SECTION(q1_##kind) { bound("content", "all of length 0-4 over {0,1,2}"); if (lo == 0) q1<kind, 0>(); q1<kind, 1>(); q1<kind, 2>(); q1<kind, 3>(); q1<kind, 4>(); }
template<> void q1<KCArr, 0>() {}
SEC(KArr, 0) SEC(KCArr, 1) SEC(KSub, 0) SEC(KRng, 0) SEC(KPtr, 0)
#endif
#if PART == 0 || PART == 2
template<template<int> class K, template<int> class L, int N, int M> void q2() { seqs<N>::each([](V const& v) { seqs<M>::each([&](V const& w) { K<N> k(v); L<M> l(w); query2(k.get(), l.cget(), K<N>::n()); query2(k.cget(), l.get(), K<N>::n()); }); }); }
template<template<int> class K, template<int> class L, int N> void q2m() { q2<K, L, N, 1>(); q2<K, L, N, 2>(); q2<K, L, N, 3>(); }
#define SEC2(k, l) MC_SECTION(q2_##k##_##l) { bound("content", "all pairs of length 1-3 over {0,1,2}"); q2m<k, l, 1>(); q2m<k, l, 2>(); q2m<k, l, 3>(); }
SEC2(KArr, KCArr) SEC2(KCArr, KSub) SEC2(KSub, KRng) SEC2(KRng, KArr)
MC_SECTION(q2_empty) { q2<KArr, KArr, 0, 0>(); q2<KArr, KRng, 0, 2>(); q2<KSub, KArr, 2, 0>(); }
#endif
#if PART == 0 || (PART >= 3 && PART <= 7)
template<template<int> class K, int N> void m1() { seqs<N>::each([](V const& v) { modify<K<N>, N>(v); }); }
#define SECM(kind) MC_SECTION(modify_##kind) { bound("content", "all of length 1-4 over {0,1,2}"); m1<kind, 1>(); m1<kind, 2>(); m1<kind, 3>(); m1<kind, 4>(); }
#if PART == 0 || PART == 3
SECM(KArr)
#endif
#if PART == 0 || PART == 4
SECM(KCArr)
#endif
#if PART == 0 || PART == 5
SECM(KSub)
#endif
#if PART == 0 || PART == 6
SECM(KRng)
#endif
#if PART == 0 || PART == 7
SECM(KPtr)
#endif
#endif
#if PART == 0 || PART == 8
template<template<int> class K, template<int> class L, int N, int M> void o2() { seqs<N>::each([](V const& v) { seqs<M>::each([&](V const& w) { output2<K<N>, L<M>, N, M>(v, w); }); }); }
#define SECO(k, l) MC_SECTION(output2_##k##_##l) { bound("content", "all pairs of lengths 1-3 over {0,1,2}"); o2<k, l, 1, 1>(); o2<k, l, 1, 3>(); o2<k, l, 2, 2>(); o2<k, l, 3, 2>(); o2<k, l, 3, 3>(); }
SECO(KArr, KCArr) SECO(KCArr, KSub) SECO(KSub, KRng) SECO(KRng, KArr)
#endif
#if PART == 0 || (PART >= 9 && PART <= 11)
template<template<int> class K, int N> void f1() { seqs<N>::each([](V const& v) { fixed1<K<N>, N>(v); }); }
#define SECF(kind) MC_SECTION(fixed_##kind) { bound("content", "all of length 1-5 over {0,1,2} into a container of 4"); f1<kind, 1>(); f1<kind, 3>(); f1<kind, 5>(); }
#if PART == 0 || PART == 9
SECF(KArr)
#endif
#if PART == 0 || PART == 10
SECF(KCArr)
#endif
#if PART == 0 || PART == 11
SECF(KSub)
#endif
#endif
#if PART == 0 || PART == 12
template<template<int> class K, template<int> class L, int N, int M> void f2() { seqs<N>::each([](V const& v) { if (sorted(v)) seqs<M>::each([&](V const& w) { if (sorted(w)) fixed2<K<N>, L<M>, N, M>(v, w); }); }); }
#define SECF2(k, l) MC_SECTION(fixed2_##k##_##l) { bound("content", "all sorted pairs of lengths 1-3 over {0,1,2} into a container of 4"); f2<k, l, 1, 1>(); f2<k, l, 1, 3>(); f2<k, l, 2, 2>(); f2<k, l, 3, 2>(); f2<k, l, 3, 3>(); }
SECF2(KArr, KCArr) SECF2(KCArr, KSub) SECF2(KSub, KArr)
#endif
