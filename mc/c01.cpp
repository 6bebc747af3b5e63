// every expression evaluated by the compiler on every input of a bounded domain (a table of constants) and again at run time
#include "mc.hpp"
#include <sprout/config.hpp>
#include <sprout/array.hpp>
#include <sprout/functional.hpp>
#include <sprout/index_tuple.hpp>
#include <cstring>
#include <type_traits>
using namespace mc;
#ifndef PART
# define PART 0
#endif
namespace so = sprout;
typedef so::array<int, 4> A4;
template<class T, int N> struct Arr { T v[N]; };
struct In { A4 a; int n; constexpr In(A4 const& a_, int n_) : a(a_), n(n_) {} };
#define Bx x.a.begin()
#define Ex (x.a.begin() + x.n)
constexpr int p3(int n) { return n == 0 ? 1 : 3 * p3(n - 1); }
constexpr int dig(int i, int b, int k) { return k == 0 ? i % b : dig(i / b, b, k - 1); }
constexpr int c4(int k, int n, int v) { return k < n ? v : 9; }
// all sequences over {0,1,2} of length 0..4: 121 of them; cells past the end hold 9
constexpr In seqn(int i, int n) { return In(A4{{c4(0, n, dig(i, 3, 0)), c4(1, n, dig(i, 3, 1)), c4(2, n, dig(i, 3, 2)), c4(3, n, dig(i, 3, 3))}}, n); }
constexpr In seqf(int i, int n) { return i < p3(n) ? seqn(i, n) : seqf(i - p3(n), n + 1); }
constexpr In SEQ(int i) { return seqf(i, 0); }
constexpr int NSEQ = 121;
// all sequences over {0,1,2} of length 4
constexpr In FULL(int i) { return seqn(i, 4); }
constexpr int NFULL = 81;
// the sorted ones of all lengths
constexpr In cnt4(int z, int o, int t) { return In(A4{{c4(0, z + o + t, 0 < z ? 0 : 0 < z + o ? 1 : 2), c4(1, z + o + t, 1 < z ? 0 : 1 < z + o ? 1 : 2), c4(2, z + o + t, 2 < z ? 0 : 2 < z + o ? 1 : 2), c4(3, z + o + t, 3 < z ? 0 : 3 < z + o ? 1 : 2)}}, z + o + t); }
constexpr In srt(int i, int k) { return i == 0 ? (dig(k, 5, 0) + dig(k, 5, 1) + dig(k, 5, 2) <= 4 ? cnt4(dig(k, 5, 0), dig(k, 5, 1), dig(k, 5, 2)) : srt(0, k + 1)) : srt(i - (dig(k, 5, 0) + dig(k, 5, 1) + dig(k, 5, 2) <= 4 ? 1 : 0), k + 1); }
constexpr In SORTED(int i) { return srt(i, 0); }
constexpr int NSORTED = 35;
// all pairs of sequences over {0,1,2} of lengths 0..2
struct In2 { In x, y; constexpr In2(In const& x_, In const& y_) : x(x_), y(y_) {} };
constexpr In2 PAIR(int i) { return In2(SEQ(i % 13), SEQ(i / 13)); }
constexpr int NPAIR = 169;
constexpr In2 SPAIR(int i) { return In2(SORTED(i % 35), SORTED(i / 35)); }
constexpr int NSPAIR = 35 * 35;
#define B1 x.x.a.begin()
#define E1 (x.x.a.begin() + x.x.n)
#define B2 x.y.a.begin()
#define E2 (x.y.a.begin() + x.y.n)
constexpr int IDX(int i) { return i; }

template<class T> typename std::enable_if<!std::is_floating_point<T>::value, bool>::type same(T const& a, T const& b) { return a == b; }
template<class T> typename std::enable_if<std::is_floating_point<T>::value, bool>::type same(T a, T b) { return a == b ? std::signbit(a) == std::signbit(b) : (a != a && b != b); }
template<class F, class R, int N> struct Tab {
	template<so::index_t... I> static constexpr Arr<R, N> make(so::index_tuple<I...>) { return Arr<R, N>{{F::call((int)I)...}}; }
	static constexpr Arr<R, N> t = make(typename so::make_index_tuple<N>::type());
};
template<class F, class R, int N> constexpr Arr<R, N> Tab<F, R, N>::t;
static volatile int vol;
template<class F, int N> void check(char const* name) {
	typedef typename std::decay<decltype(F::call(0))>::type R;
	for (int i = 0; i < N; ++i) { vol = i; MC_STATE(std::string(name) + " input " + str(i)); trace(); ok(name, same<R>(F::call(vol), Tab<F, R, N>::t.v[i])); }
}
#define FN(NAME, DOM, N, ...) struct F_##NAME { template<class X> static constexpr auto with(X const& x) -> typename std::decay<decltype(__VA_ARGS__)>::type { return __VA_ARGS__; } \
	static constexpr auto call(int i) -> decltype(with(DOM(i))) { return with(DOM(i)); } };
#define RUN(NAME, N) check<F_##NAME, N>(#NAME);
#define CE(NAME, DOM, ...) FN(NAME, DOM, N##DOM, __VA_ARGS__) MC_SECTION(NAME) { check<F_##NAME, N##DOM>(#NAME); }
#define MU(NAME, DOM, ...) struct F_##NAME { static constexpr A4 call(int i) { In x = DOM(i); A4 a = x.a; int n = x.n; auto b = a.begin(); auto e = b + n; (void)e; __VA_ARGS__; return a; } }; MC_SECTION(NAME) { check<F_##NAME, N##DOM>(#NAME); }
#define MU2(NAME, DOM, ...) struct F_##NAME { static constexpr A4 call(int i) { In2 x = DOM(i); A4 a{{8, 8, 8, 8}}; auto o = a.begin(); (void)o; __VA_ARGS__; return a; } }; MC_SECTION(NAME) { check<F_##NAME, N##DOM>(#NAME); }
constexpr int NIDX = 64;
struct Even { typedef int argument_type; typedef bool result_type; constexpr bool operator()(int a) const { return a % 2 == 0; } };
struct Sum { typedef int first_argument_type; typedef int second_argument_type; typedef int result_type; constexpr int operator()(int a, int b) const { return 3 * a + b; } };
struct Neg { typedef int argument_type; typedef int result_type; constexpr int operator()(int a) const { return 7 - a; } };
struct GtFn { typedef bool result_type; constexpr bool operator()(int a, int b) const { return a > b; } };
struct Par { typedef bool result_type; constexpr bool operator()(int a, int b) const { return a % 2 == b % 2; } };
template<class T> constexpr T const& cst(T const& t) { return t; }
constexpr A4 OUT4() { return A4{{8, 8, 8, 8}}; }
#include "c01.inc"
