// V06: rational numbers are exact fractions in lowest terms
#include "mc.hpp"
#include <sprout/rational.hpp>
#include <sprout/rational/hash.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/utility/swap.hpp>
#include <sstream>
#include <climits>
using namespace mc;
namespace so = sprout;
typedef __int128 W;
// the oracle: exact fractions with 128-bit integers
struct F { W n, d; F(W a = 0, W b = 1) : n(a), d(b) { if (d < 0) { n = -n; d = -d; } W g = d, h = n < 0 ? -n : n; while (h) { W t = g % h; g = h; h = t; } n /= g; d /= g; } };
inline F operator+(F a, F b) { return F(a.n * b.d + b.n * a.d, a.d * b.d); } inline F operator-(F a, F b) { return F(a.n * b.d - b.n * a.d, a.d * b.d); } inline F operator*(F a, F b) { return F(a.n * b.n, a.d * b.d); } inline F operator/(F a, F b) { return F(a.n * b.d, a.d * b.n); }
inline int cmp(F a, F b) { W l = a.n * b.d, r = b.n * a.d; return l < r ? -1 : l > r; }
inline std::string str(F const& f) { return std::to_string((long long)f.n) + "/" + std::to_string((long long)f.d); }
template<class R> void same(const char* op, R const& r, F const& f) { eq(op, std::to_string((long long)r.numerator()) + "/" + std::to_string((long long)r.denominator()), str(f)); }
template<class I> bool fits(F const& f) { W lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max(); return f.n >= -hi && f.n <= hi && f.d <= hi && lo <= hi; }
template<class X> bool bad(X x) { try { x(); } catch (so::bad_rational const& e) { return std::string(e.what()) == "bad rational: zero denominator"; } return false; }
template<class I> struct Num { typedef so::rational<I> R; R r; F f; };
template<class I> std::vector<Num<I>> values(int n, int d, std::vector<std::pair<long long, long long>> const& extra) {
	std::vector<Num<I>> v; std::set<std::pair<long long, long long>> seen; auto add = [&](long long a, long long b) { F f(a, b); if (seen.insert(std::make_pair((long long)f.n, (long long)f.d)).second) v.push_back(Num<I>{so::rational<I>((I)a, (I)b), f}); };
	for (int b = 1; b <= d; ++b) for (int a = -n; a <= n; ++a) add(a, b); for (auto const& e : extra) add(e.first, e.second); return v;
}
template<class I> void compare(so::rational<I> const& a, F x, so::rational<I> const& b, F y) {
	int c = cmp(x, y); eq("==", a == b, c == 0); eq("!=", a != b, c != 0); eq("<", a < b, c < 0); eq(">", a > b, c > 0); eq("<=", a <= b, c <= 0); eq(">=", a >= b, c >= 0); if (c == 0) eq("hash_value of equal values", so::to_hash(a), so::to_hash(b));
}
template<class I> void compare_int(so::rational<I> const& a, F x, I const b) {
	int c = cmp(x, F(b)); eq("== integer", a == b, c == 0); eq("!= integer", a != b, c != 0); eq("< integer", a < b, c < 0); eq("> integer", a > b, c > 0); eq("<= integer", a <= b, c <= 0); eq(">= integer", a >= b, c >= 0);
	eq("integer ==", b == a, c == 0); eq("integer !=", b != a, c != 0); eq("integer <", b < a, c > 0); eq("integer >", b > a, c < 0); eq("integer <=", b <= a, c >= 0); eq("integer >=", b >= a, c <= 0);
}
template<class I> void arith(so::rational<I> const& a, F x, so::rational<I> const& b, F y) {
	typedef so::rational<I> R; W lim = std::numeric_limits<I>::max(); auto ab = [](W w) { return w < 0 ? -w : w; };
	bool safe = ab(x.n) * y.d <= lim / 2 && ab(y.n) * x.d <= lim / 2 && x.d * y.d <= lim; // no intermediate leaves the type
	if (safe) {
		same("+", a + b, x + y); same("-", a - b, x - y); { R t(a); R& r = (t += b); same("+=", t, x + y); eq("+= result", &r == &t, true); } { R t(a); R& r = (t -= b); same("-=", t, x - y); eq("-= result", &r == &t, true); }
	}
	if (fits<I>(x * y)) { same("*", a * b, x * y); R t(a); R& r = (t *= b); same("*=", t, x * y); eq("*= result", &r == &t, true); }
	if (y.n == 0) { eq("/ by zero throws", bad([&] { (void)(a / b); }), true); eq("/= by zero throws", bad([&] { R t(a); t /= b; }), true); R t(a); try { t /= b; } catch (...) {} same("/= by zero keeps its operand", t, x); }
	else if (fits<I>(x / y)) { same("/", a / b, x / y); R t(a); R& r = (t /= b); same("/=", t, x / y); eq("/= result", &r == &t, true); }
	if (x.n == y.n && x.d == y.d && safe) { { R t(a); t += t; same("x += x", t, x + x); } { R t(a); t -= t; same("x -= x", t, F()); } if (fits<I>(x * x)) { R t(a); t *= t; same("x *= x", t, x * x); } if (x.n != 0) { R t(a); t /= t; same("x /= x", t, F(1)); } }
	{ R t(a); t = b; same("assignment", t, y); R u(a), w(b); so::swap(u, w); same("swap", u, y); same("swap other", w, x); t = t; same("self assignment", t, y); }
}
template<class I> void arith_int(so::rational<I> const& a, F x, I const k) {
	typedef so::rational<I> R; F y(k);
	same("+ integer", a + k, x + y); same("- integer", a - k, x - y); same("* integer", a * k, x * y); same("integer +", k + a, x + y); same("integer -", k - a, y - x); same("integer *", k * a, x * y);
	{ R t(a); R& r = (t += k); same("+= integer", t, x + y); eq("+= integer result", &r == &t, true); } { R t(a); t -= k; same("-= integer", t, x - y); } { R t(a); t *= k; same("*= integer", t, x * y); }
	if (k != 0) { same("/ integer", a / k, x / y); R t(a); t /= k; same("/= integer", t, x / y); } else { eq("/ integer zero throws", bad([&] { (void)(a / k); }), true); eq("/= integer zero throws", bad([&] { R t(a); t /= k; }), true); }
	if (x.n != 0) same("integer /", k / a, y / x); else eq("integer / zero throws", bad([&] { (void)(k / a); }), true);
	{ R t(a); R& r = (t = k); same("assignment of an integer", t, y); eq("assignment result", &r == &t, true); }
}
template<class I> void unary(so::rational<I> const& a, F x) {
	typedef so::rational<I> R;
	same("value", a, x); same("unary +", +a, x); same("unary -", -a, F() - x); same("abs", abs(a), x.n < 0 ? F() - x : x); eq("operator!", !a, x.n == 0); eq("operator bool", a ? true : false, x.n != 0);
	if (fits<I>(x + F(1)) && fits<I>(x - F(1))) { { R t(a); R& r = ++t; same("++x", t, x + F(1)); eq("++x result", &r == &t, true); } { R t(a); R& r = --t; same("--x", t, x - F(1)); eq("--x result", &r == &t, true); } { R t(a); R o = t++; same("x++", t, x + F(1)); same("x++ result", o, x); } { R t(a); R o = t--; same("x--", t, x - F(1)); same("x-- result", o, x); } }
	eq("rational_cast<double>", so::rational_cast<double>(a), (double)(long long)x.n / (double)(long long)x.d); eq("rational_cast<int>", so::rational_cast<long long>(a), (long long)(x.n / x.d)); eq("rational_cast<float>", so::rational_cast<float>(a), (float)(long long)x.n / (float)(long long)x.d);
	eq("tuple get", (long long)so::tuples::get<0>(a), (long long)x.n); eq("tuple get", (long long)so::tuples::get<1>(a), (long long)x.d); eq("tuple_size", (int)so::tuples::tuple_size<R>::value, 2);
	{ std::vector<long long> v; for (auto i = so::begin(a); i != so::end(a); ++i) v.push_back((long long)*i); eq("as a range", v, std::vector<long long>({(long long)x.n, (long long)x.d})); eq("size", (int)so::size(a), 2); }
	if (sizeof(I) > 1) { std::ostringstream o; o << a; eq("operator<<", o.str(), str(x)); std::istringstream i(o.str()); R r(7, 3); i >> r; same("operator>> after <<", r, x); std::istringstream j("  " + o.str() + " 5"); int n = 0; j >> r >> n; same("operator>> among other text", r, x); eq("operator>> leaves the rest", n, 5); }
}
template<class I> void all(char const* name, int n, int d, std::vector<std::pair<long long, long long>> const& extra) {
	std::vector<Num<I>> v = values<I>(n, d, extra);
	for (auto const& p : v) { MC_STATE(std::string(name) + " " + str(p.f)); trace(); unary(p.r, p.f); 
		for (int k = -n; k <= n; ++k) { if (fits<I>(p.f * F(k)) && fits<I>(p.f + F(k)) && fits<I>(p.f - F(k))) arith_int<I>(p.r, p.f, (I)k); compare_int<I>(p.r, p.f, (I)k); }
		for (I k : {std::numeric_limits<I>::max(), (I)(std::numeric_limits<I>::max() - 1), std::numeric_limits<I>::min(), (I)(std::numeric_limits<I>::min() + 1)}) compare_int<I>(p.r, p.f, k);
		for (auto const& q : v) { MC_STATE(std::string(name) + " " + str(p.f) + ", " + str(q.f)); trace(); compare(p.r, p.f, q.r, q.f); arith(p.r, p.f, q.r, q.f); } }
}
template<class I> void construct(int n) {
	typedef so::rational<I> R; { MC_STATE("default"); trace(); same("default", R(), F()); }
	for (int a = -n; a <= n; ++a) { MC_STATE("integer " + str(a)); trace(); same("from an integer", R((I)a), F(a)); R const c = (I)a; same("converted integer", c, F(a)); eq("zero denominator throws", bad([&] { R r((I)a, (I)0); (void)r; }), true); { R r((I)3, (I)4); eq("assign with zero denominator throws", bad([&] { r.assign((I)a, (I)0); }), true); same("failed assign keeps its value", r, F(3, 4)); }
		for (int b = -n; b <= n; ++b) if (b != 0) { MC_STATE("fraction " + str(a) + "/" + str(b)); trace(); same("construct", R((I)a, (I)b), F(a, b)); R r; R& q = r.assign((I)a, (I)b); same("assign", r, F(a, b)); eq("assign result", &q == &r, true); } }
}
std::vector<std::pair<long long, long long>> const ints = {{INT_MAX, 1}, {INT_MAX, 2}, {-INT_MAX, 1}, {-INT_MAX, 2}, {INT_MAX - 1, INT_MAX}, {INT_MAX, INT_MAX - 1}, {-INT_MAX + 1, INT_MAX}, {1, INT_MAX}, {-1, INT_MAX}, {1, INT_MAX - 1}, {46341, 46340}, {46340, 46341}, {-46341, 46340}, {65536, 32767}, {1134903170, 701408733}, {701408733, 433494437}};
std::vector<std::pair<long long, long long>> const longs = {{LLONG_MAX, 1}, {LLONG_MAX, 2}, {-LLONG_MAX, 1}, {-LLONG_MAX, 2}, {LLONG_MAX - 1, LLONG_MAX}, {LLONG_MAX, LLONG_MAX - 1}, {-LLONG_MAX + 1, LLONG_MAX}, {1, LLONG_MAX}, {-1, LLONG_MAX}, {3037000500ll, 3037000499ll}, {3037000499ll, 3037000500ll}, {7540113804746346429ll, 4660046610375530309ll}, {4660046610375530309ll, 2880067194370816120ll}};
MC_SECTION(v06_int) { bound("fractions", "all pairs of fractions with numerator and denominator up to 16 (thorough 40) and extreme values"); construct<int>(thorough() ? 60 : 16); all<int>("int", thorough() ? 40 : 16, thorough() ? 40 : 16, ints); }
MC_SECTION(v06_long) { construct<long>(12); construct<long long>(12); all<long>("long", 9, 9, longs); all<long long>("long long", 5, 5, longs); }
MC_SECTION(v06_narrow) { construct<short>(12); all<short>("short", 9, 9, {{32767, 1}, {-32767, 2}, {32766, 32767}, {1, 32767}}); construct<signed char>(12); all<signed char>("signed char", 5, 5, {{127, 1}, {-127, 2}, {126, 127}, {1, 127}, {89, 55}, {55, 34}}); }
// every text over the characters of fractions
MC_SECTION(v06_text) {
	const std::string al = "1-/ 02"; int len = thorough() ? 6 : 5; bound("text", "every text up to " + str(len) + " characters over \"" + al + "\"");
	for (int n = 0; n <= len; ++n) sequences(n, (int)al.size(), [&](std::vector<int> const& v) {
		std::string x; for (int i : v) x += al[i]; MC_STATE("reading \"" + x + "\""); trace();
		// fraction: spaces, integer, '/', integer with no space before it
		std::size_t p = x.find_first_not_of(' '); bool good = false; long a = 0, b = 1; if (p != std::string::npos) { auto num = [&](long& r) { std::size_t s = p; if (p < x.size() && x[p] == '-') ++p; std::size_t t = p; while (p < x.size() && x[p] >= '0' && x[p] <= '9') ++p; if (p == t) return false; r = std::stol(x.substr(s, p - s)); return true; }; good = num(a) && p < x.size() && x[p] == '/' && (++p, num(b)); }
		std::istringstream i(x); so::rational<int> r(5, 7); bool threw = false; try { i >> r; } catch (so::bad_rational const&) { threw = true; }
		eq("operator>> throws", threw, good && b == 0); if (good && b == 0) { same("operator>> keeps the value when it throws", r, F(5, 7)); return; } eq("operator>> succeeds", !!i, good); same("operator>> value", r, good ? F(a, b) : F(5, 7)); if (good) { i.clear(); std::string rest; std::getline(i, rest); eq("operator>> consumes the fraction", rest, x.substr(p)); }
	});
}
// histories of compound operations
struct S6 { so::rational<int> r; F f; };
MC_SECTION(v06_history) {
	so::rational<int> half(1, 2), third(-1, 3); std::vector<Op<S6>> ops; typedef so::rational<int> R; auto in = [](F const& f) { W n = f.n < 0 ? -f.n : f.n; return n <= 40 && f.d <= 40; };
	auto add = [&](std::string const& n, std::function<void(R&)> g, std::function<F(F)> h) { ops.push_back(Op<S6>{n, [=](S6& s) { F w = h(s.f); if (!in(w)) return false; g(s.r); s.f = w; return true; }}); };
	add("+= 1/2", [=](R& r) { r += half; }, [](F f) { return f + F(1, 2); }); add("-= 1/2", [=](R& r) { r -= half; }, [](F f) { return f - F(1, 2); }); add("*= -1/3", [=](R& r) { r *= third; }, [](F f) { return f * F(-1, 3); }); add("/= -1/3", [=](R& r) { r /= third; }, [](F f) { return f / F(-1, 3); }); add("*= 2", [](R& r) { r *= 2; }, [](F f) { return f * F(2); }); add("/= -5", [](R& r) { r /= -5; }, [](F f) { return f / F(-5); }); add("++", [](R& r) { ++r; }, [](F f) { return f + F(1); }); add("--", [](R& r) { r--; }, [](F f) { return f - F(1); }); add("+= itself", [](R& r) { r += r; }, [](F f) { return f + f; }); add("*= itself", [](R& r) { r *= r; }, [](F f) { return f * f; }); add("negate", [](R& r) { r = -r; }, [](F f) { return F() - f; }); add("3 - r", [](R& r) { r = 3 - r; }, [](F f) { return F(3) - f; });
	ops.push_back(Op<S6>{"2 / r", [=](S6& s) { if (s.f.n == 0) return false; F w = F(2) / s.f; if (!in(w)) return false; s.r = 2 / s.r; s.f = w; return true; }});
	S6 s{R(1, 1), F(1)}; bound("histories", "all histories of 13 operations within fractions up to 40 (breadth-first to closure)");
	bfs(s, ops, [](S6 const& x) { trace(); same("value after a history", x.r, x.f); return str(x.f); }, 400, 1000000);
}
#if SPROUT_USE_USER_DEFINED_LITERALS
MC_SECTION(v06_literals) { using namespace so::literals; MC_STATE("literals"); trace(); same("_r", 3_r / 6, F(1, 2)); same("_rl", 4_rl, F(4)); same("_rL", 4_rL, F(4)); same("_rll", 5_rll, F(5)); same("_rLL", 5_rLL / 10, F(1, 2)); eq("literal types", std::is_same<decltype(1_r), so::rational<int>>::value && std::is_same<decltype(1_rl), so::rational<long>>::value && std::is_same<decltype(1_rll), so::rational<long long>>::value, true); }
#endif
#define SA(...) static_assert(__VA_ARGS__, "constant")
SA(so::rational<int>(6, -4).numerator() == -3); SA(so::rational<int>(1, 2) + so::rational<int>(1, 3) == so::rational<int>(5, 6)); SA(so::rational<int>(-1, 2) < so::rational<int>(1, 3)); SA(so::rational<int>(3, 2) / 3 == so::rational<int>(1, 2));
