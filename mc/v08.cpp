// V08: valarray operations are element-wise and selections address the right elements
#include "mc.hpp"
#include <sprout/valarray.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/math.hpp>
#include <climits>
#include <numeric>
using namespace mc;
namespace so = sprout;
typedef std::vector<int> I;
template<class A> std::vector<typename A::value_type> vec(A const& a) { return std::vector<typename A::value_type>(a.begin(), a.end()); }
template<std::size_t N> so::valarray<bool, N> bools(std::vector<bool> const& v) { so::valarray<bool, N> r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
template<std::size_t N, class T> so::valarray<T, N> val(std::vector<T> const& v) { return so::valarray<T, N>(v.data(), v.size()); }
template<class A, class T> void is(const char* op, A const& a, std::vector<T> const& w) { eq(op, vec(a), w); eq(op, (std::size_t)a.size(), w.size()); }
template<class F> bool throws(F f) { try { f(); } catch (std::out_of_range const&) { return true; } return false; }
template<class F> bool too_long(F f) { try { f(); } catch (std::length_error const&) { return true; } return false; }
#ifndef PART
#define PART 1
#endif
#if PART == 1
const int AL[] = {-2, -1, 0, 1, 3, 5, -4};
template<class F> void contents(int lo, int hi, int k, F f) { for (int n = lo; n <= hi; ++n) sequences(n, k, [&](std::vector<int> const& s) { I v; for (int i : s) v.push_back(AL[i]); f(v); }); }
template<class R, class F> std::vector<R> zip(I const& a, I const& b, F f) { std::vector<R> r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i], b[i])); return r; }
template<class R, class F> std::vector<R> each(I const& a, F f) { std::vector<R> r; for (std::size_t i = 0; i < a.size(); ++i) r.push_back(f(a[i])); return r; }
#define ARITH(X) X(+) X(-) X(*) X(&) X(|) X(^)
#define COMPARE(X) X(==) X(!=) X(<) X(>) X(<=) X(>=) X(&&) X(||)
template<class T> bool none(T const& v, int bad) { for (int x : v) if (x == bad) return false; return true; }
bool shifts(I const& v) { for (int x : v) if (x < 0 || x > 20) return false; return true; } bool shifted(I const& v) { for (int x : v) if (x < 0) return false; return true; }
template<std::size_t N> void binary(I const& a, I const& b) {
	typedef so::valarray<int, N> V; V x = val<N>(a), y = val<N>(b); typedef bool B;
	#define X(op) is("v " #op " w", x op y, zip<int>(a, b, [](int p, int q) { return p op q; }));
	ARITH(X)
	#undef X
	#define X(op) is("v " #op " w", x op y, zip<B>(a, b, [](int p, int q) { return p op q; }));
	COMPARE(X)
	#undef X
	if (none(b, 0)) { is("v / w", x / y, zip<int>(a, b, [](int p, int q) { return p / q; })); is("v % w", x % y, zip<int>(a, b, [](int p, int q) { return p % q; })); }
	if (shifts(b) && shifted(a)) { is("v << w", x << y, zip<int>(a, b, [](int p, int q) { return p << q; })); is("v >> w", x >> y, zip<int>(a, b, [](int p, int q) { return p >> q; })); }
	if (a == b) eq("equal values hash equally", so::to_hash(x), so::to_hash(y));
	{ V t(x); V& r = (t = y); is("v = w", t, b); eq("result of v = w", &r == &t, true); V u(x), w(y); so::swap(u, w); is("swap", u, b); is("swap", w, a); u.swap(w); is("v.swap(w)", u, a); V m(x), n(so::move(m)); is("move construction", n, a); V k(y); k = so::move(n); is("move assignment", k, a); is("operands are unchanged", x, a); }
}
template<std::size_t N> void with_value(I const& a, int k) {
	typedef so::valarray<int, N> V; V x = val<N>(a); typedef bool B;
	#define X(op) is("v " #op " x", x op k, each<int>(a, [=](int p) { return p op k; })); is("x " #op " v", k op x, each<int>(a, [=](int p) { return k op p; })); { V t(x); V& r = (t op##= k); is("v " #op "= x", t, each<int>(a, [=](int p) { return p op k; })); eq("result of v " #op "= x", &r == &t, true); }
	ARITH(X) 
	if (k != 0) { is("v / x", x / k, each<int>(a, [=](int p) { return p / k; })); is("v % x", x % k, each<int>(a, [=](int p) { return p % k; })); { V t(x); t /= k; is("v /= x", t, each<int>(a, [=](int p) { return p / k; })); } { V t(x); t %= k; is("v %= x", t, each<int>(a, [=](int p) { return p % k; })); } }
	if (none(a, 0)) { is("x / v", k / x, each<int>(a, [=](int p) { return k / p; })); is("x % v", k % x, each<int>(a, [=](int p) { return k % p; })); }
	if (k >= 0 && shifted(a)) { is("v << x", x << k, each<int>(a, [=](int p) { return p << k; })); is("v >> x", x >> k, each<int>(a, [=](int p) { return p >> k; })); { V t(x); t <<= k; is("v <<= x", t, each<int>(a, [=](int p) { return p << k; })); } { V t(x); t >>= k; is("v >>= x", t, each<int>(a, [=](int p) { return p >> k; })); } is("x << v", k << x, each<int>(a, [=](int p) { return k << p; })); is("x >> v", k >> x, each<int>(a, [=](int p) { return k >> p; })); }
	#undef X
	#define X(op) is("v " #op " x", x op k, each<B>(a, [=](int p) { return p op k; })); is("x " #op " v", k op x, each<B>(a, [=](int p) { return k op p; }));
	COMPARE(X)
	#undef X
	{ V t(x); V& r = (t = k); is("v = x", t, I(a.size(), k)); eq("result of v = x", &r == &t, true); } { V t(x); t.fill(k); is("fill", t, I(a.size(), k)); V const& c = x; is("fill of a constant", c.fill(k), I(a.size(), k)); is("assign of a constant", c.assign(k), I(a.size(), k)); V u(x); u.assign(k); is("assign", u, I(a.size(), k)); }
}
template<std::size_t N> void unary(I const& a) {
	typedef so::valarray<int, N> V; V x = val<N>(a); V const& c = x; int n = (int)a.size();
	is("+v", +x, a); is("-v", -x, each<int>(a, [](int p) { return -p; })); is("~v", ~x, each<int>(a, [](int p) { return ~p; })); is("!v", !x, each<bool>(a, [](int p) { return !p; }));
	is("contents", x, a); eq("empty", x.empty(), n == 0); eq("max_size", (std::size_t)x.max_size(), N); eq("sum", x.sum(), std::accumulate(a.begin(), a.end(), 0)); if (n) { eq("min", x.min(), *std::min_element(a.begin(), a.end())); eq("max", x.max(), *std::max_element(a.begin(), a.end())); eq("front", c.front(), a[0]); eq("back", c.back(), a[n - 1]); eq("front", x.front(), a[0]); eq("back", x.back(), a[n - 1]); }
	is("apply lambda", x.apply([](int p) { return p * 3 + 1; }), each<int>(a, [](int p) { return p * 3 + 1; })); struct F { static int v(int p) { return p - 7; } static int r(int const& p) { return p * p; } }; int (*f)(int) = F::v; int (*g)(int const&) = F::r; is("apply function of a value", x.apply(f), each<int>(a, F::v)); is("apply function of a reference", x.apply(g), each<int>(a, F::r));
	for (int d = -2 * (int)N - 1; d <= 2 * (int)N + 3; ++d) { int i = d > 2 * (int)N + 1 ? (d & 1 ? INT_MAX : INT_MIN) : d; MC_STATE(str(a) + " shifted by " + str(i)); I s, r; for (long long p = 0; p < n; ++p) { long long q = p + i; s.push_back(q >= 0 && q < n ? a[q] : 0); r.push_back(a[((q % n) + n) % n]); } is("shift", x.shift(i), s); is("cshift", x.cshift(i), r); is("shift of a constant", c.shift(i), s); is("cshift of a constant", c.cshift(i), r); }
	// iteration and access
	I rev(a.rbegin(), a.rend()), w; for (auto i = x.rbegin(); i != x.rend(); ++i) w.push_back(*i); eq("rbegin/rend", w, rev); w.clear(); for (auto i = c.rbegin(); i != c.rend(); ++i) w.push_back(*i); eq("rbegin/rend of a constant", w, rev); w.clear(); for (auto i = c.crbegin(); i != c.crend(); ++i) w.push_back(*i); eq("crbegin/crend", w, rev); eq("cbegin/cend", I(c.cbegin(), c.cend()), a); eq("begin/end", I(x.begin(), x.end()), a); eq("sprout::begin/end", I(so::begin(x), so::end(x)), a); eq("sprout::size", (int)so::size(x), n); eq("sprout::empty", so::empty(x), n == 0);
	for (int i = 0; i < (int)N + 2; ++i) { MC_STATE(str(a) + " at " + str(i)); if (i < n) { eq("[]", c[i], a[i]); eq("at", c.at(i), a[i]); eq("at", x.at(i), a[i]); eq("nth", *c.nth(i), a[i]); eq("nth", *x.nth(i), a[i]); eq("index_of", (int)c.index_of(c.begin() + i), i); eq("index_of", (int)x.index_of(x.begin() + i), i); eq("rangecheck", throws([&] { x.rangecheck(i); }), false); eq("data", c.data()[i], a[i]); eq("c_array", c.c_array()[i], a[i]);
			{ V t(x); I u(a); u[i] = 9; t[i] = 9; is("write []", t, u); t = x; t.at(i) = 9; is("write at", t, u); t = x; *t.nth(i) = 9; is("write nth", t, u); t = x; *(t.begin() + i) = 9; is("write begin", t, u); t = x; t.data()[i] = 9; is("write data", t, u); t = x; *(t.rbegin() + (n - 1 - i)) = 9; is("write rbegin", t, u); }
			{ V t(x); t += t[i]; is("v += v[i]", t, each<int>(a, [&](int p) { return p + a[i]; })); } { V t(x); t -= t[i]; is("v -= v[i]", t, each<int>(a, [&](int p) { return p - a[i]; })); } { V t(x); t *= t[i]; is("v *= v[i]", t, each<int>(a, [&](int p) { return p * a[i]; })); } { V t(x); t ^= t[i]; is("v ^= v[i]", t, each<int>(a, [&](int p) { return p ^ a[i]; })); } if (a[i]) { V t(x); t /= t[i]; is("v /= v[i]", t, each<int>(a, [&](int p) { return p / a[i]; })); } { V t(x); t = t[i]; is("v = v[i]", t, I(n, a[i])); } { V t(x); t.fill(t[i]); is("fill with an element", t, I(n, a[i])); } }
		else { eq("at throws", throws([&] { (void)c.at(i); }), true); eq("at throws", throws([&] { (void)x.at(i); }), true); eq("nth throws", throws([&] { (void)c.nth(i); }), true); eq("rangecheck throws", throws([&] { x.rangecheck(i); }), true); }
		V t(x); if (i <= (int)N) { t.resize(i, 6); is("resize", t, I(i, 6)); V u(x); u.resize(i); is("resize", u, I(i, 0)); } else { eq("resize throws", too_long([&] { t.resize(i); }), true); is("resize that throws", t, a); } 
		if (i <= (int)N) { is("from a value", V(4, (std::size_t)i), I(i, 4)); is("from a size", V((std::size_t)i), I(i, 0)); } else { eq("from a value throws", too_long([&] { V z(4, (std::size_t)i); }), true); eq("from a size throws", too_long([&] { V z((std::size_t)i); }), true); } }
}
MC_SECTION(v08_pairs) { int k = thorough() ? 7 : 5; bound("pairs", "all pairs of contents of up to 3 elements over " + str(k) + " values"); contents(0, 3, k, [&](I const& a) { contents((int)a.size(), (int)a.size(), k, [&](I const& b) { MC_STATE(str(a) + " " + str(b)); trace(); binary<4>(a, b); if (a.size() == 3) binary<3>(a, b); }); }); }
MC_SECTION(v08_values) { contents(0, thorough() ? 4 : 3, 5, [&](I const& a) { for (int k = -4; k <= 4; ++k) { MC_STATE(str(a) + " with " + str(k)); trace(); with_value<4>(a, k); } }); }
MC_SECTION(v08_unary) { int n = thorough() ? 6 : 5; bound("contents", "all contents of up to " + str(n) + " elements over 3 values"); contents(0, n, 3, [&](I const& a) { MC_STATE(str(a)); trace(); unary<6>(a); if (a.size() <= 5) unary<5>(a); }); }
// histories of one valarray
MC_SECTION(v08_history) {
	typedef so::valarray<int, 3> V; struct S { V v, w; I a, b; }; std::vector<Op<S>> ops; 
	auto add = [&](std::string const& n, std::function<bool(S&)> f) { ops.push_back(Op<S>{n, f}); };
	for (int n = 0; n <= 3; ++n) { add("resize " + str(n), [=](S& s) { s.v.resize(n, n); s.a = I(n, n); return true; }); add("il " + str(n), [=](S& s) { if (n == 0) { s.v = {}; s.a = I(); } else if (n == 1) { s.v = {5}; s.a = {5}; } else if (n == 2) { s.v = {5, 6}; s.a = {5, 6}; } else { s.v = {1, 2, 0}; s.a = {1, 2, 0}; } return true; }); }
	add("too long", [](S& s) { eq("initializer list too long throws", too_long([&] { s.v = {1, 2, 3, 4}; }), true); return true; });
	add("v = w", [](S& s) { s.v = s.w; s.a = s.b; return true; }); add("swap", [](S& s) { so::swap(s.v, s.w); std::swap(s.a, s.b); return true; }); add("v = v", [](S& s) { V& r = s.v; s.v = r; return true; }); add("self swap", [](S& s) { s.v.swap(s.v); return true; });
	add("fill", [](S& s) { s.v.fill(2); s.a = I(s.a.size(), 2); return true; }); add("v = 1", [](S& s) { s.v = 1; s.a = I(s.a.size(), 1); return true; }); add("shift", [](S& s) { s.v = s.v.shift(1); if (s.a.size()) { s.a.erase(s.a.begin()); s.a.push_back(0); } return true; }); add("cshift", [](S& s) { s.v = s.v.cshift(-1); if (s.a.size()) std::rotate(s.a.begin(), s.a.end() - 1, s.a.end()); return true; });
	add("v = v[slice]", [](S& s) { if (s.a.size() < 2) return false; s.v = s.v[so::slice(0, 2, 1)]; s.a.resize(2); return true; }); add("v[slice] = w[slice]", [](S& s) { if (s.a.size() < 2 || s.b.size() < 2) return false; s.v[so::slice(0, 2, 1)] = s.w[so::slice(0, 2, 1)]; s.a[0] = s.b[0]; s.a[1] = s.b[1]; return true; }); add("v[0] = 0", [](S& s) { if (s.a.empty()) return false; s.v[0] = s.a[0] = 0; return true; });
	S s; bound("histories", "all histories of two valarrays of capacity 3 (breadth-first to closure)"); 
	bfs(s, ops, [](S const& s) { trace(); is("contents after a history", s.v, s.a); is("the other", s.w, s.b); return str(s.a) + str(s.b); }, 60, thorough() ? 400000 : 60000);
}
// mathematical functions
MC_SECTION(v08_math) {
	typedef so::valarray<double, 4> D; std::vector<double> g = {-1, -.5, 0, .25, .5, 1, 1.5, 2};
	#define FN(f) is(#f, so::f(x), each_d(a, [](double p) { return (double)so::math::f(p); }));
	auto each_d = [](std::vector<double> const& a, double (*f)(double)) { std::vector<double> r; for (double p : a) r.push_back(f(p)); return r; };
	auto same_all = [](const char* op, D const& d, std::vector<double> const& w) { bool s = d.size() == w.size(); for (std::size_t i = 0; s && i < w.size(); ++i) s = mc::same(d[i], w[i]); eqd(op, s, true, [&] { return str(vec(d)) + " want " + str(w); }); };
	#undef FN
	#define FN(f) same_all(#f, so::f(x), each_d(a, [](double p) -> double { return so::math::f(p); }));
	for (int n = 0; n <= 2; ++n) sequences(n, (int)g.size(), [&](std::vector<int> const& q) { std::vector<double> a; for (int i : q) a.push_back(g[i]); MC_STATE(str(a)); trace(); D x = val<4>(a);
		FN(acos) FN(asin) FN(atan) FN(cos) FN(sin) FN(tan) FN(exp) FN(exp10) FN(exp2) FN(expm1) FN(log) FN(log10) FN(log1p) FN(log2) FN(acosh) FN(asinh) FN(atanh) FN(cosh) FN(sinh) FN(tanh) FN(sqrt) FN(cbrt) FN(abs)
		for (double k : g) { std::vector<double> p, r, s, t, h, l, j; for (double e : a) { p.push_back(so::math::pow(e, k)); r.push_back(so::math::pow(k, e)); s.push_back(so::math::atan2(e, k)); t.push_back(so::math::atan2(k, e)); h.push_back(so::math::hypot(e, k)); l.push_back(so::math::log_a(e, k)); j.push_back(so::math::log_a(k, e)); } same_all("hypot(v, x)", so::hypot(x, k), h); same_all("hypot(x, v)", so::hypot(k, x), h); same_all("log_a(v, x)", so::log_a(x, k), l); same_all("log_a(x, v)", so::log_a(k, x), j); same_all("pow(v, x)", so::pow(x, k), p); same_all("pow(x, v)", so::pow(k, x), r); same_all("atan2(v, x)", so::atan2(x, k), s); same_all("atan2(x, v)", so::atan2(k, x), t); }
		sequences(n, (int)g.size(), [&](std::vector<int> const& q) { std::vector<double> b, p, s, h, l; for (int i : q) b.push_back(g[i]); MC_STATE(str(a) + " " + str(b)); D y = val<4>(b); for (int i = 0; i < n; ++i) { p.push_back(so::math::pow(a[i], b[i])); s.push_back(so::math::atan2(a[i], b[i])); h.push_back(so::math::hypot(a[i], b[i])); l.push_back(so::math::log_a(a[i], b[i])); } same_all("hypot(v, w)", so::hypot(x, y), h); same_all("log_a(v, w)", so::log_a(x, y), l); same_all("pow(v, w)", so::pow(x, y), p); same_all("atan2(v, w)", so::atan2(x, y), s); }); });
}
// making valarrays
MC_SECTION(v08_make) {
	MC_STATE("making"); trace(); is("make_valarray<int>", so::make_valarray<int>(1, 2, 3), I{1, 2, 3}); is("make_valarray", so::make_valarray(4, 5), I{4, 5}); is("make_valarray<N>", so::make_valarray<4>(1, 2), I{1, 2}); is("make_valarray<T, N>", so::make_valarray<int, 5>(1, 2, 9), I{1, 2, 9}); is("make_common_valarray", so::make_common_valarray(1, 2.5), std::vector<double>{1, 2.5}); is("without narrowing", so::make_valarray_without_narrowing<long>(1, 2), std::vector<long>{1, 2});
	int c[] = {7, 8, 9}; is("to_valarray of an array", so::to_valarray(c), I{7, 8, 9}); std::array<int, 2> s = {{1, 2}}; is("to_valarray of std::array", so::to_valarray(s), I{1, 2}); so::array<int, 2> p = {{3, 4}}; is("to_valarray of sprout::array", so::to_valarray(p), I{3, 4}); is("to_valarray of valarray", so::to_valarray(so::make_valarray(1, 3)), I{1, 3});
	so::valarray<int, 3> v = {4, 6}; is("initializer list", v, I{4, 6}); eq("too long throws", too_long([] { so::valarray<int, 3> w = {1, 2, 3, 4}; }), true); eq("get", so::tuples::get<1>(v), 6); so::tuples::get<0>(v) = 1; is("write get", v, I{1, 6}); eq("tuple_size", (int)so::tuples::tuple_size<so::valarray<int, 3>>::value, 3);
}
#define SA(...) static_assert(__VA_ARGS__, "constant")
SA(so::make_valarray(1, 2, 3).cshift(1).max() == 3); SA(so::make_valarray(1, 2, 3).shift(1).sum() == 5); SA((so::make_valarray(1, 2) + so::make_valarray(3, 4)).sum() == 10); SA(so::make_valarray(3, 1).min() == 1 && so::make_valarray(3, 1).max() == 3);
#endif
#if PART == 2
// a selection behaves as the sequence of elements at the given positions
const std::size_t NN = 7; typedef so::valarray<int, NN> V;
// sel(v) is the selection, sel const the constant form, pos the positions it must address; distinct when it may be written
template<class Sel> void selection(std::size_t n, I const& pos, Sel const& sel) {
	I a; for (std::size_t i = 0; i < n; ++i) a.push_back((int)i + 2); std::size_t m = pos.size(); V x = val<NN>(a); V const& c = x; std::set<int> u(pos.begin(), pos.end()); bool distinct = u.size() == m;
	I want; for (int p : pos) want.push_back(a[p]); I rev(want.rbegin(), want.rend());
	if (m <= NN) { is("selection of a constant", sel(c), want); is("valarray of a selection", V(sel(x)), want); V t(9, 1); V& r = (t = sel(x)); is("valarray = selection", t, want); eq("result of valarray = selection", &r == &t, true); } else { eq("selection of a constant throws", too_long([&] { (void)sel(c); }), true); eq("assigning a selection throws", too_long([&] { V t(9, 1); t = sel(x); }), true); }
	{ auto s = sel(x); is("selection", s, want); eq("empty", s.empty(), m == 0); I w; for (auto i = s.rbegin(); i != s.rend(); ++i) w.push_back(*i); eq("rbegin/rend", w, rev); auto s2 = s; is("copied selection", s2, want);
		for (std::size_t i = 0; i < m; ++i) { eq("[]", s[i], want[i]); eq("[] address", &s[i] == &x[pos[i]], true); eq("at", s.at(i), want[i]); eq("nth", *s.nth(i), want[i]); eq("index_of", (std::size_t)s.index_of(s.begin() + i), i); } if (m) { eq("front", s.front(), want[0]); eq("back", s.back(), want[m - 1]); } eq("nth throws", throws([&] { (void)s.nth(m); }), true); }
	auto after = [&](I const& values) { I r = a; for (std::size_t i = 0; i < m; ++i) r[pos[i]] = values[i]; return r; };
	{ V t(x); sel(t) = 50; is("selection = x", t, after(I(m, 50))); auto const s = sel(t); s = 51; is("named selection = x", t, after(I(m, 51))); }
	if (m > 8 || !distinct) return; I other; for (std::size_t i = 0; i < m; ++i) other.push_back((int)i % 3 + 1); so::valarray<int, 8> y = val<8>(other);
	{ V t(x); sel(t) = y; is("selection = valarray", t, after(other)); }
	#define X(op) { V t(x); sel(t) op##= y; I w; for (std::size_t i = 0; i < m; ++i) w.push_back(want[i] op other[i]); is("selection " #op "= valarray", t, after(w)); }
	X(+) X(-) X(*) X(/) X(%) X(&) X(|) X(^) X(<<) X(>>)
	#undef X
	{ V t(x), z(x); z += 100; I w; for (int q : want) w.push_back(q + 100); sel(t) = sel(z); is("selection = selection", t, after(w)); z += 100; w.clear(); for (int q : want) w.push_back(q + 200); auto s = sel(t); auto const r = sel(z); s = r; is("named selection = named selection", t, after(w)); auto const k = sel(t); z += 1; for (int& q : w) ++q; k = sel(z); is("constant selection = selection", t, after(w)); 
		so::valarray<int, 8> big = val<8>(std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8}); if (n) { w.clear(); for (int p : pos) w.push_back(p + 1); auto s8 = sel(big); sel(t) = s8; is("selection = selection of another type", t, after(w)); is("the source is unchanged", big, I{1, 2, 3, 4, 5, 6, 7, 8}); } }
	{ V t(x), z(x); z += 100; auto s = sel(t), r = sel(z); s.swap(r); if (m) { s[0] = 1; eq("swapped selections refer to the other array", z[pos[0]], 1); eq("swapped selections leave the elements", t[pos[0]], want[0]); so::swap(s, r); s[0] = 3; eq("swapped back", t[pos[0]], 3); } }
}
struct Sel { so::slice s; template<std::size_t N> so::slice_array<int, N> operator()(so::valarray<int, N>& v) const { return v[s]; } template<std::size_t N> so::valarray<int, N> operator()(so::valarray<int, N> const& v) const { return v[s]; } };
MC_SECTION(v08_slice) {
	bound("slices", "all starts, sizes and strides within up to " + str((int)NN) + " elements");
	for (std::size_t n = 0; n <= NN; ++n) for (std::size_t st = 0; st <= n; ++st) for (std::size_t m = 0; m <= n; ++m) for (std::size_t d = 0; d <= n; ++d) {
		if (m && st + d * (m - 1) >= n) continue; MC_STATE("slice(" + str((int)st) + "," + str((int)m) + "," + str((int)d) + ") of " + str((int)n)); trace(); I pos; for (std::size_t i = 0; i < m; ++i) pos.push_back((int)(st + d * i));
		so::slice s(st, m, d); eq("start", s.start(), st); eq("size", s.size(), m); eq("stride", s.stride(), d); selection(n, pos, Sel{s}); }
}
template<std::size_t M> struct GSel { so::gslice<M> s; template<std::size_t N> so::gslice_array<int, N, M> operator()(so::valarray<int, N>& v) const { return v[s]; } template<std::size_t N> so::valarray<int, N> operator()(so::valarray<int, N> const& v) const { return v[s]; } };
template<std::size_t M> void gslices(std::size_t n, int k) { // all sizes 1..k and strides 0..k+1 in every dimension
	for (std::size_t st = 0; st < 3; ++st) sequences((int)M, k, [&](std::vector<int> const& z) { sequences((int)M, k + 2, [&](std::vector<int> const& d) {
		so::valarray<std::size_t, M> sz(M), sd(M); for (std::size_t i = 0; i < M; ++i) { sz[i] = z[i] + 1; sd[i] = d[i]; }
		I pos; std::vector<std::size_t> ix(M); for (;;) { std::size_t p = st; for (std::size_t i = 0; i < M; ++i) p += ix[i] * sd[i]; pos.push_back((int)p); std::size_t i = M; while (i > 0 && ++ix[i - 1] == sz[i - 1]) ix[--i] = 0; if (i == 0) break; }
		for (int p : pos) if (p >= (int)n) return; MC_STATE("gslice(" + str((int)st) + "," + str(vec(sz)) + "," + str(vec(sd)) + ") of " + str((int)n)); trace(); so::gslice<M> g(st, sz, sd); eq("start", g.start(), st); is("size", g.size(), vec(sz)); is("stride", g.stride(), vec(sd)); selection(n, pos, GSel<M>{g}); }); });
}
MC_SECTION(v08_gslice) { bound("gslices", "all gslices of 1-3 dimensions with sizes up to 3 and strides up to 4 within " + str((int)NN) + " elements"); for (std::size_t n : {3, 5, 7}) { gslices<1>(n, 4); gslices<2>(n, 3); gslices<3>(n, 2); if (thorough()) gslices<3>(n, 3); gslices<4>(n, 2); } }
template<std::size_t M> struct MSel { so::valarray<bool, M> s; template<std::size_t N> so::mask_array<int, N, M> operator()(so::valarray<int, N>& v) const { return v[s]; } template<std::size_t N> so::valarray<int, N> operator()(so::valarray<int, N> const& v) const { return v[s]; } };
template<std::size_t M> void masks(std::size_t n) { sequences((int)std::min(n, M), 2, [&](std::vector<int> const& z) { std::vector<bool> b(z.begin(), z.end()); I pos; for (std::size_t i = 0; i < z.size(); ++i) if (z[i]) pos.push_back((int)i); MC_STATE("mask " + str(z) + " of " + str((int)n)); trace(); selection(n, pos, MSel<M>{bools<M>(b)}); }); }
MC_SECTION(v08_mask) { bound("masks", "all masks"); for (std::size_t n = 0; n <= NN; ++n) { masks<NN>(n); masks<8>(n); masks<3>(n); } }
template<std::size_t M> struct XSel { so::valarray<std::size_t, M> s; template<std::size_t N> so::indirect_array<int, N, M> operator()(so::valarray<int, N>& v) const { return v[s]; } template<std::size_t N> so::valarray<int, N> operator()(so::valarray<int, N> const& v) const { return v[s]; } };
template<std::size_t M> void indirects(std::size_t n, int len) { for (int k = 0; k <= len && k <= (int)M; ++k) sequences(k, (int)n, [&](std::vector<int> const& z) { std::vector<std::size_t> x(z.begin(), z.end()); MC_STATE("indices " + str(z) + " of " + str((int)n)); trace(); selection(n, z, XSel<M>{val<M>(x)}); }); }
MC_SECTION(v08_indirect) { bound("index sets", "all index sequences of up to 4 (thorough 5) positions"); for (std::size_t n : {1, 3, 5}) { indirects<4>(n, 4); indirects<7>(n, thorough() ? 5 : 4); } indirects<4>(7, 3); indirects<9>(1, 9); indirects<9>(2, 8); }
#endif
