// M02: elementary functions against 113-bit arithmetic, at run time and in constant expressions; special values against Annex F.
#include "mc.hpp"
#include <sprout/math.hpp>
#include <quadmath.h>
#include <cmath>
#include <limits>
#include <vector>
using namespace mc;
namespace sm = sprout::math;
typedef __float128 Q;
#ifdef SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
static bool const PORTABLE = true;
#else
static bool const PORTABLE = false;
#endif
static Q exp10q(Q x) { return powq(10, x); }
static Q sigmoidq(Q x) { return 1 / (1 + expq(-x)); }
static Q d_sigmoidq(Q x) { Q s = sigmoidq(x); return s * (1 - s); }
static Q d2_sigmoidq(Q x) { Q s = sigmoidq(x); return s * sigmoidq(-x) * tanhq(-x / 2); }
template<class T> std::string sh(T v) { char b[80]; std::snprintf(b, 80, "%.21Lg(%La)", (long double)v, (long double)v); return b; }
static std::string shq(Q v) { char b[80]; quadmath_snprintf(b, 80, "%.25Qg", v); return b; }
static Q absq(Q x) { return x < 0 ? -x : x; }
// error allowed: e * (R |w| + C |x f'(x)| + A), e the epsilon of the type (of double for the series that are only that precise)
struct Spec { char const* name; double R, C, A; bool dbl; double lo, hi; };
template<class T> Q eps(bool dbl) { Q e = std::numeric_limits<T>::epsilon(), d = std::numeric_limits<double>::epsilon(); return dbl && e < d ? d : e; }
template<class T, class F> void judge(char const* op, Spec const& s, T x, T g, F q) {
	Q w = q((Q)x), e = eps<T>(s.dbl); Q h = absq((Q)x) * 1e-24Q, slope = h == 0 ? (Q)0 : absq(q((Q)x + h) - q((Q)x - h)) / (2 * h) * absq((Q)x); if (isnanq(slope) || isinfq(slope)) slope = absq(w);
	Q tol = e * ((Q)s.R * absq(w) + (Q)s.C * slope + (Q)s.A) + 2 * (Q)std::numeric_limits<T>::denorm_min(); Q mx = std::numeric_limits<T>::max();
	bool b = isnanq(w) ? std::isnan(g) : isinfq(w) ? std::isinf(g) && (g > 0) == (w > 0) : std::isnan(g) ? false : std::isinf(g) ? absq(w) + tol >= mx && (g > 0) == (w > 0) : absq((Q)g - w) <= tol;
	okd(op, b, [&] { return "got " + sh(g) + ", want " + shq(w); });
}
template<class T> std::vector<T> const& grid() { static std::vector<T> v; if (v.empty()) { typedef std::numeric_limits<T> N; int step = thorough() ? 1 : N::max_exponent > 2000 ? 37 : N::max_exponent > 200 ? 7 : 1; int M = thorough() ? 64 : 24; for (int e = N::min_exponent - N::digits; e < N::max_exponent; e += (e >= -30 && e <= 24) ? 1 : step) { int m = e >= -30 && e <= 12 ? M : 4; for (int k = 0; k < m; ++k) { T x = std::ldexp((T)1 + k / (T)m + (k * 37 % 11) * N::epsilon(), e); v.push_back(x); v.push_back(-x); if (k == 0) { T y = std::nextafter(x, (T)0); v.push_back(y); v.push_back(-y); } } } for (int k = 1; k <= 400; ++k) { v.push_back((T)k / 8); v.push_back(-(T)k / 8); v.push_back((T)k * (T)0.7853981633974483096L); v.push_back(-(T)k * (T)0.7853981633974483096L); } } return v; }
template<class T> bool same_class(T a, T b) { return std::isnan(b) ? std::isnan(a) : std::isinf(b) ? a == b : b == 0 ? a == 0 && (bool)std::signbit(a) == (bool)std::signbit(b) : true; }
template<class T> std::vector<T> specials() { typedef std::numeric_limits<T> N; std::vector<T> r = {(T)0, (T)1, (T)2, (T)0.5, (T)3, N::infinity(), N::quiet_NaN(), N::max(), N::min(), N::denorm_min(), (T)1 - N::epsilon() / 2, (T)1 + N::epsilon(), (T)10, (T)4, (T)1.5, (T)2.5, (T)27}; std::size_t n = r.size(); for (std::size_t i = 0; i < n; ++i) r.push_back(-r[i]); return r; }
template<class T, class F, class G, class Qf> void unary(char const* op, Spec const& s, F f, G g, Qf q, int parity, bool special) {
	bool lg = std::string(s.name) == "lgamma";
	for (T x : grid<T>()) if (x >= s.lo && x <= s.hi && !(lg && x < 0 && -x < (PORTABLE ? (T)1 / 1024 : 64 * std::numeric_limits<T>::min()))) { MC_STATE(std::string(s.name) + " of " + sh(x)); T v = f(x); judge(op, s, x, v, q); if (parity && !PORTABLE) { T u = f(-x); okd("symmetry", parity > 0 ? u == v : u == -v, [&] { return sh(u) + " against " + sh(v); }); } trace(); }
	for (T x : specials<T>()) if (special) { MC_STATE(std::string(s.name) + " of special " + sh(x)); T v = f(x), w = g(x); if (std::isnan(w) || std::isinf(x) || x == 0 || (std::isinf(w) && !PORTABLE)) okd("special values", same_class(v, w), [&] { return "got " + sh(v) + ", want " + sh(w); }); trace(); }
}
#define SP(n, R, C, A, D, LO, HI) Spec s = {#n, R, C, A, D, LO, HI}
#define INF 1e5000L
#define LIM std::numeric_limits<double>::infinity()
#define U(n, par, bR, bC, bA, bd, blo, bhi, pR, pC, pA, pd, plo, phi) \
	template<class T> void run_##n() { Spec s = PORTABLE ? Spec{#n, pR, pC, pA, pd, plo, phi} : Spec{#n, bR, bC, bA, bd, blo, bhi}; unary<T>(#n, s, [](T x) -> T { return sm::n(x); }, [](T x) -> T { return STD_##n(x); }, [](Q x) -> Q { return n##q(x); }, par, true); } \
	MC_SECTION(n) { run_##n<float>(); run_##n<double>(); run_##n<long double>(); for (int k = -3; k <= 12; ++k) { MC_STATE(#n " of int " + str(k)); double v = sm::n(k), w = sm::n((double)k); ok("of an int", v == w || (v != v && w != w)); if (k >= 0) { double u = sm::n((unsigned char)k); ok("of an unsigned char", u == w || (u != u && w != w)); } static_assert(std::is_same<decltype(sm::n(k)), double>::value && std::is_same<decltype(sm::n(1.0f)), float>::value && std::is_same<decltype(sm::n(1.0L)), long double>::value, ""); trace(); } }
#define STD_exp std::exp
#define STD_exp2 std::exp2
#define STD_exp10 [](T x) -> T { return std::pow((T)10, x); }
#define STD_expm1 std::expm1
#define STD_log std::log
#define STD_log2 std::log2
#define STD_log10 std::log10
#define STD_log1p std::log1p
#define STD_sqrt std::sqrt
#define STD_cbrt std::cbrt
#define STD_sin std::sin
#define STD_cos std::cos
#define STD_tan std::tan
#define STD_asin std::asin
#define STD_acos std::acos
#define STD_atan std::atan
#define STD_sinh std::sinh
#define STD_cosh std::cosh
#define STD_tanh std::tanh
#define STD_asinh std::asinh
#define STD_acosh std::acosh
#define STD_atanh std::atanh
#define STD_erf std::erf
#define STD_erfc std::erfc
#define STD_tgamma std::tgamma
#define STD_lgamma std::lgamma
//  name  parity   builtin: R C A dbl lo hi            portable: R C A dbl lo hi
U(exp,    0, 4, 0, 0, 0, -LIM, LIM,    16, 4, 0, 0, -LIM, LIM)
U(exp2,   0, 4, 0, 0, 0, -LIM, LIM,    16, 4, 0, 0, -LIM, LIM)
U(exp10,  0, 4, 4, 0, 0, -LIM, LIM,    16, 4, 0, 0, -LIM, LIM)
U(expm1,  0, 4, 0, 0, 0, -LIM, LIM,    16, 4, 4, 0, -LIM, LIM)
U(log,    0, 4, 0, 0, 0, 0, LIM,       64, 8, 0, 0, 0, LIM)
U(log2,   0, 4, 0, 0, 0, 0, LIM,       64, 8, 0, 0, 0, LIM)
U(log10,  0, 4, 0, 0, 0, 0, LIM,       64, 8, 0, 0, 0, LIM)
U(log1p,  0, 4, 0, 0, 0, -1, LIM,      64, 8, 8, 0, -1, LIM)
U(sqrt,   0, 0.5, 0, 0, 0, 0, LIM,     2, 0, 0, 0, 0, LIM)
U(cbrt,  -1, 4, 0, 0, 0, -LIM, LIM,    32768, 0, 0, 0, -LIM, LIM)
U(sin,   -1, 4, 0, 0, 0, -LIM, LIM,    16, 64, 512, 0, -100, 100)
U(cos,    1, 4, 0, 0, 0, -LIM, LIM,    16, 64, 512, 0, -100, 100)
U(tan,   -1, 4, 0, 0, 0, -LIM, LIM,    16, 64, 8, 0, -100, 100)
U(asin,  -1, 4, 0, 0, 0, -1, 1,        8, 0, 2, 1, -1, 1)
U(acos,   0, 4, 0, 0, 0, -1, 1,        8, 0, 4, 1, -1, 1)
U(atan,  -1, 4, 0, 0, 0, -LIM, LIM,    8, 0, 2, 0, -LIM, LIM)
U(sinh,  -1, 4, 0, 0, 0, -LIM, LIM,    16, 4, 4, 0, -LIM, LIM)
U(cosh,   1, 4, 0, 0, 0, -LIM, LIM,    16, 4, 4, 0, -LIM, LIM)
U(tanh,  -1, 4, 0, 0, 0, -LIM, LIM,    16, 4, 4, 0, -LIM, LIM)
U(asinh, -1, 4, 0, 0, 0, -LIM, LIM,    64, 8, 8, 0, -LIM, LIM)
U(acosh,  0, 4, 0, 0, 0, 1, LIM,       64, 8, 8, 0, 1, LIM)
U(atanh, -1, 4, 0, 0, 0, -1, 1,        64, 8, 8, 0, -1, 1)
U(erf,   -1, 4, 0, 0, 0, -LIM, LIM,    8, 0, 0, 1, -LIM, LIM)
U(erfc,   0, 8, 0, 0, 0, -LIM, LIM,    8, 0, 16, 1, -LIM, LIM)
U(tgamma, 0, 16, 0, 0, 0, -LIM, LIM,   64, 8, 0, 1, -100, 100)
U(lgamma, 0, 64, 8, 64, 1, -30, 1e15,  64, 8, 64, 1, -30, 1e15)
MC_SECTION(sigmoid) { auto one = [&](auto t) { typedef decltype(t) T; Spec s = {"sigmoid", 16, 4, 0, 0, -80, 80}; unary<T>("sigmoid", s, [](T x) -> T { return (T)sm::sigmoid(x); }, [](T x) -> T { return x; }, [](Q x) -> Q { return sigmoidq(x); }, 0, false); Spec d = {"d_sigmoid", 16, 4, 4, 0, -80, 80}; unary<T>("d_sigmoid", d, [](T x) -> T { return (T)sm::d_sigmoid(x); }, [](T x) -> T { return x; }, [](Q x) -> Q { return d_sigmoidq(x); }, 0, false);
	for (T a : {(T)0.5, (T)2, (T)-1}) { Spec g = {"sigmoid with gain", 16, 4, 0, 0, -30, 30}; unary<T>("sigmoid with gain", g, [a](T x) -> T { return (T)sm::sigmoid(x, a); }, [](T x) -> T { return x; }, [a](Q x) -> Q { return sigmoidq((Q)a * x); }, 0, false); Spec h = {"d_sigmoid with gain", 16, 4, 8, 0, -30, 30}; unary<T>("d_sigmoid with gain", h, [a](T x) -> T { return (T)sm::d_sigmoid(x, a); }, [](T x) -> T { return x; }, [a](Q x) -> Q { return (Q)a * d_sigmoidq((Q)a * x); }, 0, false); Spec k = {"d2_sigmoid with gain", 16, 8, 16, 0, -30, 30}; unary<T>("d2_sigmoid with gain", k, [a](T x) -> T { return (T)sm::d2_sigmoid(x, a); }, [](T x) -> T { return x; }, [a](Q x) -> Q { return (Q)a * (Q)a * d2_sigmoidq((Q)a * x); }, 0, false); }
	Spec e = {"d2_sigmoid", 16, 8, 8, 0, -80, 80}; unary<T>("d2_sigmoid", e, [](T x) -> T { return (T)sm::d2_sigmoid(x); }, [](T x) -> T { return x; }, [](Q x) -> Q { return d2_sigmoidq(x); }, 0, false);
	for (int n = -20; n < 21; ++n) { MC_STATE("sigmoids of the integer " + std::to_string(n)); trace(); double x = n; okd("sigmoid of an integer", sm::sigmoid(n) == sm::sigmoid(x) && sm::d_sigmoid(n) == sm::d_sigmoid(x) && sm::d2_sigmoid(n) == sm::d2_sigmoid(x) && sm::sigmoid(n, 0.5) == sm::sigmoid(x, 0.5) && sm::d_sigmoid(n, 2) == sm::d_sigmoid(x, 2.0) && sm::d2_sigmoid(x, -1) == sm::d2_sigmoid(x, -1.0), [] { return std::string("differs from the double form"); }); } }; one(0.0f); one(0.0); one(0.0L); }
// two arguments
template<class T> std::vector<T> coarse() { typedef std::numeric_limits<T> N; std::vector<T> r; for (int e : {-200, -60, -20, -8, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 20, 60, 200}) if (e > N::min_exponent && e < N::max_exponent) for (int k = 0; k < (thorough() ? 8 : 4); ++k) { T x = std::ldexp((T)1 + k / (T)(thorough() ? 8 : 4) + (k & 1) * N::epsilon(), e); r.push_back(x); r.push_back(-x); } for (int k = 3; k < 9; ++k) { r.push_back((T)k); r.push_back(-(T)k); } return r; }
template<class T, class F, class G> void two(char const* op, F f, G q, double R, double K, bool (*dom)(Q, Q), Q (*cond)(Q, Q)) {
	std::vector<T> v = coarse<T>(); for (T x : v) for (T y : v) if (dom((Q)x, (Q)y)) { MC_STATE(std::string(op) + " of " + sh(x) + ", " + sh(y)); T g = f(x, y); Q w = q((Q)x, (Q)y), tol = (Q)std::numeric_limits<T>::epsilon() * ((Q)R * absq(w) + (Q)K * cond((Q)x, (Q)y) * absq(w)) + 2 * (Q)std::numeric_limits<T>::denorm_min(), mx = std::numeric_limits<T>::max(); bool b = std::isnan(g) ? false : std::isinf(g) && isinfq(w) ? (g > 0) == (w > 0) : std::isinf(g) ? absq(w) + tol >= mx && (g > 0) == (w > 0) : isinfq(w) ? absq(g) >= mx / 2 : absq((Q)g - w) <= tol; okd(op, b, [&] { return "got " + sh(g) + ", want " + shq(w); }); trace(); }
}
static Q one(Q, Q) { return 1; }
static Q ylogx(Q x, Q y) { return absq(y * logq(absq(x))); }
template<class T, class F, class G> void special2(char const* op, F f, G g, bool signs) { std::vector<T> v = specials<T>(); for (T x : v) for (T y : v) { MC_STATE(std::string(op) + " of specials " + sh(x) + ", " + sh(y)); T a = f(x, y), w = g(x, y); bool edge = std::isnan(w) || std::isinf(x) || std::isinf(y) || x == 0 || y == 0 || std::isnan(x) || std::isnan(y) || x == 1; if (!edge) continue; okd("special values of two", std::isnan(w) ? std::isnan(a) : std::isinf(w) ? a == w : w == 0 ? a == 0 && (!signs || (bool)std::signbit(a) == (bool)std::signbit(w)) : std::fabs(a - w) <= 8 * std::numeric_limits<T>::epsilon() * std::fabs(w), [&] { return "got " + sh(a) + ", want " + sh(w); }); trace(); } }
template<class T> void binary() {
	auto all = +[](Q, Q) { return true; };
	two<T>("pow", [](T x, T y) { return sm::pow(x, y); }, [](Q x, Q y) { return powq(x, y); }, PORTABLE ? 32 : 4, PORTABLE ? 16 : 0, +[](Q x, Q y) { return (x > 0 || y == floorq(y)) && absq(y * logq(absq(x))) < 12000; }, ylogx); special2<T>("pow", [](T x, T y) { return sm::pow(x, y); }, [](T x, T y) { return std::pow(x, y); }, true);
	two<T>("hypot", [](T x, T y) { return sm::hypot(x, y); }, [](Q x, Q y) { return hypotq(x, y); }, 4, 0, all, one); special2<T>("hypot", [](T x, T y) { return sm::hypot(x, y); }, [](T x, T y) { return std::hypot(x, y); }, true);
	two<T>("atan2", [](T x, T y) { return sm::atan2(x, y); }, [](Q x, Q y) { return atan2q(x, y); }, PORTABLE ? 16 : 4, 0, all, one); special2<T>("atan2", [](T x, T y) { return sm::atan2(x, y); }, [](T x, T y) { return std::atan2(x, y); }, true);
	two<T>("log_a", [](T x, T y) { return sm::log_a(x, y); }, [](Q x, Q y) { return logq(y) / logq(x); }, 256, 64, +[](Q x, Q y) { return x > 0 && y > 0 && absq(x - 1) > 0.2Q && absq(y - 1) > 0.2Q; }, one);
}
MC_SECTION(binary_float) { binary<float>(); } MC_SECTION(binary_double) { binary<double>(); } MC_SECTION(binary_long_double) { binary<long double>(); }
template<class A, class B, class R> void mixed(A a, B b) { static_assert(std::is_same<decltype(sm::pow(a, b)), R>::value && std::is_same<decltype(sm::hypot(a, b)), R>::value && std::is_same<decltype(sm::atan2(a, b)), R>::value && std::is_same<decltype(sm::log_a(a, b)), R>::value, ""); MC_STATE("mixed " + str((double)a) + ", " + str((double)b)); R x = (R)a, y = (R)b; eq("pow of mixed types", (long double)sm::pow(a, b), (long double)sm::pow(x, y)); eq("hypot of mixed types", (long double)sm::hypot(a, b), (long double)sm::hypot(x, y)); eq("atan2 of mixed types", (long double)sm::atan2(a, b), (long double)sm::atan2(x, y)); eq("log_a of mixed types", (long double)sm::log_a(a, b), (long double)sm::log_a(x, y)); trace(); }
MC_SECTION(mixed_types) { for (int a = 2; a < 9; ++a) for (int b = 1; b < 9; ++b) { mixed<int, float, double>(a, (float)b / 4); mixed<float, int, double>((float)a * 1.25f, b); mixed<int, int, double>(a, b); mixed<float, float, float>((float)a * 1.5f, (float)b / 4); mixed<double, float, double>(a + 0.5, (float)b / 4); mixed<long double, int, long double>(a + 0.25L, b); mixed<float, long double, long double>((float)a, b / 3.0L); mixed<unsigned char, short, double>((unsigned char)a, (short)b); mixed<long long, double, double>(a, b * 0.375); } }
// the same functions while the compiler evaluates them
template<class T> struct CE {
#define PTS(n) static constexpr T n##_[] = {sm::n((T)0.125L), sm::n((T)0.3L), sm::n((T)0.5L), sm::n((T)0.7L), sm::n((T)0.96875L)};
#define PTA(n) static constexpr T n##_[] = {sm::n((T)1.125L), sm::n((T)1.3L), sm::n((T)2.5L), sm::n((T)7.7L), sm::n((T)16.5L)};
	PTS(exp) PTS(exp2) PTS(exp10) PTS(expm1) PTS(log) PTS(log2) PTS(log10) PTS(log1p) PTS(sqrt) PTS(cbrt) PTS(sin) PTS(cos) PTS(tan) PTS(asin) PTS(acos) PTS(atan) PTS(sinh) PTS(cosh) PTS(tanh) PTS(asinh) PTA(acosh) PTS(atanh) PTS(erf) PTS(erfc) PTS(tgamma) PTS(lgamma)
	static constexpr T pow_[] = {sm::pow((T)0.125L, (T)1.5L), sm::pow((T)0.3L, (T)1.5L), sm::pow((T)0.5L, (T)1.5L), sm::pow((T)0.7L, (T)1.5L), sm::pow((T)0.96875L, (T)1.5L)};
};
#define DEF(n) template<class T> constexpr T CE<T>::n##_[];
DEF(exp) DEF(exp2) DEF(exp10) DEF(expm1) DEF(log) DEF(log2) DEF(log10) DEF(log1p) DEF(sqrt) DEF(cbrt) DEF(sin) DEF(cos) DEF(tan) DEF(asin) DEF(acos) DEF(atan) DEF(sinh) DEF(cosh) DEF(tanh) DEF(asinh) DEF(acosh) DEF(atanh) DEF(erf) DEF(erfc) DEF(tgamma) DEF(lgamma) DEF(pow)
template<class T, class F> void ce(char const* op, T const* v, bool a, F q, bool dbl) { long double const p[] = {0.125L, 0.3L, 0.5L, 0.7L, 0.96875L}, r[] = {1.125L, 1.3L, 2.5L, 7.7L, 16.5L}; for (int i = 0; i < 5; ++i) { T x = (T)(a ? r[i] : p[i]); MC_STATE(std::string("constant ") + op + " of " + sh(x)); Spec s = {op, 64, 16, 64, dbl, 0, 0}; judge(op, s, x, v[i], q); trace(); } }
template<class T> void constant() {
#define RUN(n) ce<T>(#n, CE<T>::n##_, false, [](Q x) -> Q { return n##q(x); }, false);
#define RUND(n) ce<T>(#n, CE<T>::n##_, false, [](Q x) -> Q { return n##q(x); }, true);
	RUN(exp) RUN(exp2) RUN(exp10) RUN(expm1) RUN(log) RUN(log2) RUN(log10) RUN(log1p) RUN(sqrt) RUN(cbrt) RUN(sin) RUN(cos) RUN(tan) RUND(asin) RUND(acos) RUN(atan) RUN(sinh) RUN(cosh) RUN(tanh) RUN(asinh) RUN(atanh) RUND(erf) RUND(erfc) RUND(tgamma) RUND(lgamma) ce<T>("acosh", CE<T>::acosh_, true, [](Q x) -> Q { return acoshq(x); }, false); ce<T>("pow", CE<T>::pow_, false, [](Q x) -> Q { return powq(x, 1.5Q); }, false);
}
MC_SECTION(constant_expressions) { constant<float>(); constant<double>(); constant<long double>(); }
template<class T> void nearest(char const* op, T g, Q w) { MC_STATE(std::string(op) + " of " + str(sizeof(T)) + " bytes"); T t = (T)w; okd(op, g == t, [&] { return "got " + sh(g) + ", want " + shq(w); }); trace(); }
template<class T> void constants() { Q p = M_PIq;
	nearest<T>("pi", sm::pi<T>(), p); nearest<T>("half_pi", sm::half_pi<T>(), p / 2); nearest<T>("third_pi", sm::third_pi<T>(), p / 3); nearest<T>("two_thirds_pi", sm::two_thirds_pi<T>(), 2 * p / 3); nearest<T>("quarter_pi", sm::quarter_pi<T>(), p / 4); nearest<T>("three_quarters_pi", sm::three_quarters_pi<T>(), 3 * p / 4); nearest<T>("two_pi", sm::two_pi<T>(), 2 * p); nearest<T>("four_pi", sm::four_pi<T>(), 4 * p); nearest<T>("two_div_pi", sm::two_div_pi<T>(), 2 / p); nearest<T>("root_two_div_pi", sm::root_two_div_pi<T>(), sqrtq(2 / p)); nearest<T>("root_pi", sm::root_pi<T>(), sqrtq(p)); nearest<T>("one_div_root_pi", sm::one_div_root_pi<T>(), 1 / sqrtq(p)); nearest<T>("root_one_div_pi", sm::root_one_div_pi<T>(), sqrtq(1 / p)); nearest<T>("two_div_root_pi", sm::two_div_root_pi<T>(), 2 / sqrtq(p)); nearest<T>("half", sm::half<T>(), 0.5Q); nearest<T>("quarter", sm::quarter<T>(), 0.25Q); nearest<T>("third", sm::third<T>(), 1 / 3.0Q); nearest<T>("two_thirds", sm::two_thirds<T>(), 2 / 3.0Q); nearest<T>("root_two", sm::root_two<T>(), sqrtq(2)); nearest<T>("root_three", sm::root_three<T>(), sqrtq(3)); nearest<T>("half_root_two", sm::half_root_two<T>(), sqrtq(2) / 2); nearest<T>("e", sm::e<T>(), M_Eq); nearest<T>("ln_ten", sm::ln_ten<T>(), logq(10)); nearest<T>("ln_two", sm::ln_two<T>(), logq(2)); nearest<T>("phi", sm::phi<T>(), (1 + sqrtq(5)) / 2);
}
MC_SECTION(constants) { constants<float>(); constants<double>(); constants<long double>(); }
