// V07: complex arithmetic and functions
#include "mc.hpp"
#include <sprout/complex.hpp>
#include <sprout/complex/hash.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/iterator.hpp>
#include <complex>
#include <sstream>
#include <cmath>
using namespace mc;
namespace so = sprout;
template<class T> std::string cs(T const& z) { return "(" + str(z.real()) + "," + str(z.imag()) + ")"; }
template<class T> const char* tn();
template<> const char* tn<float>() { return "float"; } template<> const char* tn<double>() { return "double"; } template<> const char* tn<long double>() { return "long double"; }
// exact comparison (a NaN equals a NaN, zeros are distinguished)
template<class T> void exact(const char* op, so::complex<T> const& g, T re, T im) { eqd(op, mc::same(g.real(), re) && mc::same(g.imag(), im), true, [&] { return "got " + cs(g) + " want (" + str(re) + "," + str(im) + ")"; }); }
// equal values (zeros are not distinguished)
template<class T> void value(const char* op, so::complex<T> const& g, T re, T im) { eqd(op, g.real() == re && g.imag() == im, true, [&] { return "got " + cs(g) + " want (" + str(re) + "," + str(im) + ")"; }); }
template<class T> std::vector<T> specials() {
	T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(); std::vector<T> v = {T(0), T(.25), T(.5), T(1), T(1.5), T(2), T(3), inf};
	size_t n = v.size(); for (size_t i = 0; i < n; ++i) v.push_back(-v[i]); v.push_back(nan); return v;
}
typedef long double L;
// a component against the reference: the class (NaN, infinity with its sign, finite) always; finite values to a tolerance relative to the size of the whole result
enum { RE_SIGN = 1, IM_SIGN = 2, RE_ZERO = 4, IM_ZERO = 8 };
template<class T> bool comp(T g, L w, L scale, L tol, bool inf_sign, bool zero_sign) {
	if (w != w) return g != g; if (std::isinf(w)) return std::isinf(g) && (!inf_sign || (g > 0) == (w > 0));
	if (!(g - g == 0)) return false; if (w == 0 && g == 0) return !zero_sign || std::signbit(g) == std::signbit(w);
	return std::fabs((L)g - w) <= tol * scale;
}
// loose: mask of components whose sign the standard leaves open when infinite or zero
template<class T> void close(const char* op, so::complex<T> const& g, std::complex<L> const& w, L ulps, int open = 0) {
	L n = std::isfinite(w.real()) && std::isfinite(w.imag()) ? std::abs(w) : std::isfinite(w.real()) ? std::fabs(w.real()) : std::isfinite(w.imag()) ? std::fabs(w.imag()) : 0;
	L e = ulps * std::numeric_limits<T>::epsilon(); if (n < 1) n = 1;
	eqd(op, comp(g.real(), w.real(), n, e, !(open & RE_SIGN), !(open & RE_ZERO)) && comp(g.imag(), w.imag(), n, e, !(open & IM_SIGN), !(open & IM_ZERO)), true, [&] { return "got " + cs(g) + " want " + cs(w); });
}
#ifndef PART
#define PART 1
#endif
#if PART == 1
// ---- arithmetic
template<class T> void arith(int n) {
	typedef so::complex<T> C; std::vector<T> g; for (int i = -n; i <= n; ++i) g.push_back((T)i);
	for (T a : g) for (T b : g) {
		C p(a, b); { MC_STATE(std::string(tn<T>()) + " " + cs(p)); trace();
			value("unary +", +p, a, b); value("unary -", -p, -a, -b); value("conj", so::conj(p), a, -b); value("perp", so::perp(p), -b, a); eq("norm", so::norm(p), a * a + b * b); eq("real()", p.real(), a); eq("imag()", p.imag(), b);
			eq("real(z)", so::real(p), a); eq("imag(z)", so::imag(p), b); value("proj", so::proj(p), a, b);
			{ C z(1, 1); z.real(a); z.imag(b); value("real(x), imag(x)", z, a, b); z.real() = b; z.imag() = a; value("real() =, imag() =", z, b, a); }
			{ C z(p); z += z; value("z += z", z, 2 * a, 2 * b); } { C z(p); z -= z; value("z -= z", z, T(), T()); } { C z(p); z *= z; value("z *= z", z, a * a - b * b, 2 * a * b); } if (a != 0 || b != 0) { C z(p); z /= z; value("z /= z", z, T(1), T()); }
			{ C z(p); z *= z.real(); value("z *= z.real()", z, a * a, b * a); } { C z(p); z *= z.imag(); value("z *= z.imag()", z, a * b, b * b); } { C z(p); z += z.imag(); value("z += z.imag()", z, a + b, b); } { C z(p); z -= z.real(); value("z -= z.real()", z, T(), b); } { C z(p); z += z.real(); value("z += z.real()", z, a + a, b); }
			if (b != 0) { C z(p); z /= z.imag(); value("z /= z.imag()", z, a / b, T(1)); } if (a != 0) { C z(p); z /= z.real(); value("z /= z.real()", z, T(1), b / a); }
			{ C z(p); z = z.imag(); value("z = z.imag()", z, b, T()); } { C z(p); z = z.real(); value("z = z.real()", z, a, T()); } { C z(p); z = z; value("z = z", z, a, b); }
		}
		for (T c : g) {
			MC_STATE(std::string(tn<T>()) + " " + cs(p) + ", " + str(c)); trace();
			value("z + x", p + c, a + c, b); value("x + z", c + p, c + a, b); value("z - x", p - c, a - c, b); value("x - z", c - p, c - a, -b); value("z * x", p * c, a * c, b * c); value("x * z", c * p, a * c, b * c);
			{ C z(p); C& r = (z += c); value("z += x", z, a + c, b); eq("result of z += x", &r == &z, true); } { C z(p); C& r = (z -= c); value("z -= x", z, a - c, b); eq("result of z -= x", &r == &z, true); } { C z(p); C& r = (z *= c); value("z *= x", z, a * c, b * c); eq("result of z *= x", &r == &z, true); }
			{ C z(p); C& r = (z = c); value("z = x", z, c, T()); eq("result of z = x", &r == &z, true); }
			if (c != 0) { value("z / x", p / c, a / c, b / c); value("(z * x) / x", (p * c) / c, a, b); C z(p); C& r = (z /= c); value("z /= x", z, a / c, b / c); eq("result of z /= x", &r == &z, true); }
			if (a != 0 || b != 0) { T m = a * a + b * b; value("x * |z|^2 / z", (c * m) / p, c * a, -c * b); }
			eq("z == x", p == c, a == c && b == 0); eq("x == z", c == p, a == c && b == 0); eq("z != x", p != c, !(a == c && b == 0)); eq("x != z", c != p, !(a == c && b == 0));
			for (T d : g) {
				C q(c, d); MC_STATE(std::string(tn<T>()) + " " + cs(p) + ", " + cs(q)); trace();
				value("p + q", p + q, a + c, b + d); value("p - q", p - q, a - c, b - d); value("p * q", p * q, a * c - b * d, a * d + b * c); bool e = a == c && b == d; eq("p == q", p == q, e); eq("p != q", p != q, !e);
				{ C z(p); C& r = (z += q); value("p += q", z, a + c, b + d); eq("result of p += q", &r == &z, true); } { C z(p); C& r = (z -= q); value("p -= q", z, a - c, b - d); eq("result of p -= q", &r == &z, true); } { C z(p); C& r = (z *= q); value("p *= q", z, a * c - b * d, a * d + b * c); eq("result of p *= q", &r == &z, true); }
				{ C z(p); C& r = (z = q); value("p = q", z, c, d); eq("result of p = q", &r == &z, true); }
				if (c != 0 || d != 0) { value("(p * q) / q", (p * q) / q, a, b); C z(p * q); C& r = (z /= q); value("(p * q) /= q", z, a, b); eq("result of p /= q", &r == &z, true); T m = c * c + d * d; value("p / q", p / q, (a * c + b * d) / m, (b * c - a * d) / m); }
				if (e) eq("equal values hash equally", so::to_hash(p), so::to_hash(q)); 
			}
		}
	}
}
MC_SECTION(v07_arithmetic) { int n = thorough() ? 5 : 3; bound("operands", "all pairs of complex numbers with integer components up to " + str(n)); arith<float>(n); arith<double>(n); arith<long double>(n); }
template<class T, class U> void mixed() { // assignment and construction between types
	typedef so::complex<T> C; typedef so::complex<U> D; for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) for (int d = -2; d <= 2; ++d) {
		MC_STATE(std::string(tn<T>()) + " " + str(a) + "," + str(b) + " with " + tn<U>() + " " + str(c) + "," + str(d)); trace(); C p(a, b); D q(c, d); { C z(q); value("converting construction", z, (T)c, (T)d); } { C z = q; value("implicit conversion", z, (T)c, (T)d); }
		{ C z(p); C& r = (z = q); value("converting assignment", z, (T)c, (T)d); eq("result", &r == &z, true); } { C z(p); z += q; value("mixed +=", z, T(a + c), T(b + d)); } { C z(p); z -= q; value("mixed -=", z, T(a - c), T(b - d)); } { C z(p); z *= q; value("mixed *=", z, T(a * c - b * d), T(a * d + b * c)); }
		if (c || d) { C z(T(a * c - b * d), T(a * d + b * c)); z /= q; value("mixed /=", z, (T)a, (T)b); }
		std::complex<U> s(c, d); { C z(s); value("from std::complex", z, (T)c, (T)d); } { std::complex<U> t = (std::complex<U>)p; eq("to std::complex", t == std::complex<U>(a, b), true); }
	}
}
MC_SECTION(v07_mixed) { mixed<float, double>(); mixed<double, float>(); mixed<double, long double>(); mixed<long double, double>(); mixed<float, long double>(); mixed<long double, float>(); mixed<float, float>(); mixed<double, double>(); }
// ---- containers, tuples, text
template<class T> void interface() {
	typedef so::complex<T> C; for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) {
		MC_STATE(std::string(tn<T>()) + " interface " + str(a) + "," + str(b)); trace(); C z(a, b); C const& k = z; T x = a, y = b;
		std::vector<T> w = {x, y}, rw = {y, x}; 
		eq("begin/end", std::vector<T>(z.begin(), z.end()), w); eq("begin/end const", std::vector<T>(k.begin(), k.end()), w); eq("cbegin/cend", std::vector<T>(k.cbegin(), k.cend()), w); { std::vector<T> v; for (auto i = z.rbegin(); i != z.rend(); ++i) v.push_back(*i); eq("rbegin/rend", v, rw); } { std::vector<T> v; for (auto i = k.rbegin(); i != k.rend(); ++i) v.push_back(*i); eq("rbegin/rend const", v, rw); } { std::vector<T> v; for (auto i = k.crbegin(); i != k.crend(); ++i) v.push_back(*i); eq("crbegin/crend", v, rw); }
		eq("sprout::begin/end", std::vector<T>(so::begin(z), so::end(z)), w); eq("size", (int)z.size(), 2); eq("max_size", (int)z.max_size(), 2); eq("empty", z.empty(), false); eq("sprout::size", (int)so::size(z), 2);
		eq("[]", k[0], x); eq("[]", k[1], y); eq("at", k.at(0), x); eq("at", k.at(1), y); eq("at", z.at(1), y); for (std::size_t i = 2; i < 5; ++i) { bool t = false; try { (void)k.at(i); } catch (std::out_of_range const&) { t = true; } eq("at throws", t, true); t = false; try { (void)z.at(i); } catch (std::out_of_range const&) { t = true; } eq("at throws", t, true); } eq("front", k.front(), x); eq("back", k.back(), y); eq("data", k.data() == &k[0], true); eq("c_array", k.c_array() == &k[0], true);
		eq("get", so::tuples::get<0>(z), x); eq("get", so::tuples::get<1>(k), y); eq("get of an rvalue", so::tuples::get<0>(C(a, b)), x); eq("get of an rvalue", so::tuples::get<1>(C(a, b)), y); eq("tuple_size", (int)so::tuples::tuple_size<C>::value, 2);
		{ C u(z); u[0] = 7; u[1] = 8; value("write []", u, T(7), T(8)); u.at(0) = 5; u.front() += 1; u.back() = 4; value("write front, back", u, T(6), T(4)); *u.begin() = 1; *u.rbegin() = 2; value("write iterators", u, T(1), T(2)); u.data()[1] = 3; u.c_array()[0] = 9; value("write data", u, T(9), T(3)); so::tuples::get<0>(u) = 2; so::tuples::get<1>(u) = 6; value("write get", u, T(2), T(6)); so::tuples::get<0>(so::tuples::get<0>(u) < 3 ? u : z) = 1; }
		{ C u(z), v(b, a); so::swap(u, v); value("swap", u, (T)b, (T)a); value("swap", v, x, y); } { C u; value("default", u, T(), T()); C v(x); value("from a real number", v, x, T()); }
		{ std::ostringstream o; o << z; std::ostringstream e; e << '(' << x << ',' << y << ')'; eq("operator<<", o.str(), e.str()); std::istringstream i(o.str()); C r(9, 9); i >> r; eq("operator>> succeeds", !!i, true); value("operator>> after <<", r, x, y); std::wostringstream wo; wo << z; std::wistringstream wi(wo.str()); C q; wi >> q; value("wide text", q, x, y); }
		C im(0, y); exact("multiplication by i", C(x, y) * C(0, 1), x * T(0) - y * T(1), x * T(1) + y * T(0));
	}
	static_assert(so::is_complex<C>::value && so::is_complex<C const>::value && !so::is_complex<T>::value, "is_complex"); 
}
MC_SECTION(v07_interface) { interface<float>(); interface<double>(); interface<long double>(); }
MC_SECTION(v07_text) { // every text over the characters of complex numbers
	const std::string al = "(,)1 -"; int len = thorough() ? 8 : 6; bound("text", "every text up to " + str(len) + " characters over \"" + al + "\"");
	for (int n = 0; n <= len; ++n) sequences(n, (int)al.size(), [&](std::vector<int> const& v) {
		std::string x; for (int i : v) x += al[i]; MC_STATE("reading \"" + x + "\""); trace();
		// the oracle: spaces may come before every token
		std::size_t p = 0; auto skip = [&] { while (p < x.size() && x[p] == ' ') ++p; }; auto num = [&](double& d) { skip(); std::istringstream i(x.substr(p)); int k; std::size_t s = p; if (p < x.size() && x[p] == '-') ++p; if (p >= x.size() || x[p] != '1') return false; while (p < x.size() && x[p] == '1') ++p; (void)k; d = std::stod(x.substr(s, p - s)); return true; };
		auto ch = [&](char& c) { skip(); if (p >= x.size()) return false; c = x[p++]; return true; };
		double a = 0, b = 0; char c = 0; bool good = false; skip(); if (p < x.size() && x[p] != '(') good = num(a); else if (p < x.size()) { ++p; if (num(a) && ch(c)) { if (c == ')') good = true; else if (c == ',') good = num(b) && ch(c) && c == ')'; } }
		std::istringstream i(x); so::complex<double> r(5, 7); i >> r; eq("operator>> succeeds", !!i, good); if (good) value("operator>> value", r, a, b); else value("operator>> keeps the value when it fails", r, 5., 7.);
		if (good) { i.clear(); eq("operator>> position", (int)i.tellg() == -1 ? x.size() : (std::size_t)i.tellg(), p); }
	});
}
#if SPROUT_USE_USER_DEFINED_LITERALS
MC_SECTION(v07_literals) { using namespace so::literals; MC_STATE("literals"); trace(); value("_i", 3.5_i, 0., 3.5); value("_if", 2.5_if, 0.f, 2.5f); value("_il", 1.5_il, 0.l, 1.5l); value("1. + 2._i", 1. + 2._i, 1., 2.); }
#endif
#define SA(...) static_assert(__VA_ARGS__, "constant")
SA((so::complex<double>(1, 2) * so::complex<double>(3, -1)) == so::complex<double>(5, 5)); SA(so::norm(so::complex<double>(3, 4)) == 25); SA(so::conj(so::complex<float>(1, 2)) == so::complex<float>(1, -2)); SA(so::complex<double>(1, 2) / so::complex<double>(1, 2) == 1.); SA(so::perp(so::complex<double>(1, 2)) == so::complex<double>(-2, 1));
#endif
#if PART == 2
template<class T> std::complex<L> up(so::complex<T> const& z) { return std::complex<L>(z.real(), z.imag()); }
#ifdef SLOPPY
const L TOL = 4096;
#else
const L TOL = 32;
#endif
template<class T> bool nan(so::complex<T> const& z) { return z.real() != z.real() || z.imag() != z.imag(); }
inline int all_open() { return RE_SIGN | IM_SIGN | RE_ZERO | IM_ZERO; }
template<class T> bool fin(so::complex<T> const& z) { return z.real() - z.real() == 0 && z.imag() - z.imag() == 0; }
// a function of one complex argument: against the reference, and its symmetries
struct Fn { const char* name; bool odd, even; };
template<class T, class F, class G> void one(Fn const& n, so::complex<T> const& z, F const& f, G const& g, int open) {
	so::complex<T> r = f(z); close(n.name, r, (std::complex<L>)g(up(z)), TOL, open); if (!fin(z)) return;
	L e = TOL * std::numeric_limits<T>::epsilon() * (1 + std::abs(up(r)));
	auto sym = [&](const char* what, so::complex<T> const& c, int sr, int si) { // c is r with the signs of its components multiplied by sr, si
		auto k = [&](T a, T b, int s) { return (std::isinf(b) ? a == s * b : std::fabs((L)a - (L)b * s) <= e) && (std::signbit(a) != std::signbit(b)) == (s < 0); };
		eqd(n.name, k(c.real(), r.real(), sr) && k(c.imag(), r.imag(), si), true, [&] { return what + cs(c) + ", of the argument itself " + cs(r); }); };
	if (fin(r)) { sym("of the conjugate ", f(so::complex<T>(z.real(), -z.imag())), 1, -1); if (n.odd) sym("of the negative ", f(-z), -1, -1); if (n.even) sym("of the negative ", f(-z), 1, 1); }
}
template<class T> void functions(so::complex<T> const& z) {
	typedef so::complex<T> C; typedef std::complex<L> W; int all = RE_SIGN | IM_SIGN | RE_ZERO | IM_ZERO, open = fin(z) ? 0 : all, both = z.real() - z.real() == 0 || z.imag() - z.imag() == 0 ? 0 : all; // where the standard leaves a sign open
	bool i0 = z.real() == 0 && !(z.imag() - z.imag() == 0), r0 = z.imag() == 0 && !(z.real() - z.real() == 0);
	#define FN(f, odd, even, open) one<T>(Fn{#f, odd, even}, z, [](C const& x) { return so::f(x); }, [](W const& x) { return std::f(x); }, open)
	FN(sqrt, 0, 0, z.imag() != z.imag() ? IM_SIGN : 0); FN(exp, 0, 0, both); FN(log, 0, 0, 0); FN(log10, 0, 0, 0);
	FN(sinh, 1, 0, open); FN(cosh, 0, 1, open); if (!i0) FN(tanh, 1, 0, open); FN(asinh, 1, 0, open); if (!i0) FN(acosh, 0, 0, 0); FN(atanh, 1, 0, open);
	FN(sin, 1, 0, open); FN(cos, 0, 1, open); if (!r0) FN(tan, 1, 0, open); FN(asin, 1, 0, open); FN(acos, 0, 0, open); FN(atan, 1, 0, open);
	if (z.real() != 0 || z.imag() != 0) one<T>(Fn{"log2", 0, 0}, z, [](C const& x) { return so::log2(x); }, [](W const& x) { return std::log(x) / std::log(2.0L); }, all);
	{ W w = up(z); T a = so::abs(z), r = so::arg(z), n = so::norm(z); L e = 4 * std::numeric_limits<T>::epsilon();
		eqd("abs", comp(a, std::isinf(w.real()) || std::isinf(w.imag()) ? std::numeric_limits<L>::infinity() : std::abs(w), std::abs(w), e, true, true), true, [&] { return str(a); });
		eqd("arg", comp(r, std::arg(w), L(1), TOL * std::numeric_limits<T>::epsilon(), true, true), true, [&] { return str(r); });
		eqd("norm", comp(n, std::isinf(w.real()) || std::isinf(w.imag()) ? std::numeric_limits<L>::infinity() : std::norm(w), std::norm(w), e, true, true), true, [&] { return str(n); });
		C p = so::proj(z); W q = std::proj(w); eqd("proj", mc::same(p.real(), (T)q.real()) && mc::same(p.imag(), (T)q.imag()), true, [&] { return cs(p); });
		exact("conj", so::conj(z), z.real(), -z.imag()); exact("perp", so::perp(z), -z.imag(), z.real()); exact("unary -", -z, -z.real(), -z.imag());
	}
}
template<class T> void all() { std::vector<T> g = specials<T>(); for (T a : g) for (T b : g) { so::complex<T> z(a, b); MC_STATE(std::string(tn<T>()) + " " + cs(z)); trace(); functions(z); } }
MC_SECTION(v07_functions) { bound("arguments", "all pairs of {0 .25 .5 1 1.5 2 3 inf} with both signs and NaN; all pairs of multiples of 1/8 (thorough 1/32) up to 3"); all<double>(); all<float>(); all<long double>(); }
template<class T> void fine(int d) { for (int a = -3 * d; a <= 3 * d; ++a) for (int b = -3 * d; b <= 3 * d; ++b) { so::complex<T> z((T)a / d, (T)b / d); MC_STATE(std::string(tn<T>()) + " " + cs(z)); trace(); functions(z); } }
MC_SECTION(v07_fine) { int d = thorough() ? 32 : 8; fine<double>(d); fine<float>(d); fine<long double>(d); }
// rounding to whole components, unit vectors, polar form
template<class T> void misc() {
	typedef so::complex<T> C; std::vector<T> g = specials<T>(); for (T x : {T(2.5), T(-2.5), T(.75), T(-.75), T(1e6) + T(.25)}) g.push_back(x);
	for (T a : g) for (T b : g) { C z(a, b); MC_STATE(std::string(tn<T>()) + " " + cs(z)); trace();
		exact("ceil", so::ceil(z), std::ceil(a), std::ceil(b)); exact("floor", so::floor(z), std::floor(a), std::floor(b)); exact("trunc", so::trunc(z), std::trunc(a), std::trunc(b)); exact("round", so::round(z), std::round(a), std::round(b));
		if (a >= 0 && !std::signbit(a) && std::isfinite(a) && std::isfinite(b) && !(TOL > 32 && b > 1e5)) close("polar", so::polar(a, b), std::complex<L>(a * std::cos((L)b), a * std::sin((L)b)), TOL, RE_ZERO | IM_ZERO); 
		if (std::isfinite(a) && !(TOL > 32 && a > 1e5)) close("euler", so::euler(a), std::complex<L>(std::cos((L)a), std::sin((L)a)), TOL);
	}
	for (T a : g) if (std::isfinite(a) && a >= 0 && !std::signbit(a)) { MC_STATE(std::string(tn<T>()) + " polar " + str(a)); trace(); exact("polar of a positive number", so::polar(a), std::fabs(a), T(0)); }
	// powers
	std::vector<T> h; for (int i = -4; i <= 4; ++i) h.push_back((T)i / 2);
	for (T a : h) for (T b : h) { C x(a, b); std::complex<L> u(a, b); if (a == 0 && b == 0) continue; 
		for (T c : h) { MC_STATE(std::string(tn<T>()) + " pow " + cs(x) + ", " + str(c)); trace(); std::complex<L> w = std::exp((L)c * std::log(u)); close("pow(z, x)", so::pow(x, c), w, TOL * (1 + std::abs(w)), all_open()); 
			if (c != 0) { std::complex<L> v = std::exp(u * std::log(std::complex<L>(c, 0))); close("pow(x, z)", so::pow(c, x), v, TOL * (1 + std::abs(v)), all_open()); }
			for (T d : h) { MC_STATE(std::string(tn<T>()) + " pow " + cs(x) + ", (" + str(c) + "," + str(d) + ")"); trace(); std::complex<L> y(c, d), w = std::exp(y * std::log(u)); close("pow(z, z)", so::pow(x, C(c, d)), w, TOL * (1 + std::abs(w)), all_open()); } } }
	for (T c : h) for (T d : h) if (c > 0) { MC_STATE(std::string(tn<T>()) + " pow of 0"); value("pow(0, z)", so::pow(C(), C(c, d)), T(0), T(0)); if (d == 0) value("pow(0, x)", so::pow(C(), c), T(0), T(0)); }
}
MC_SECTION(v07_misc) { misc<double>(); misc<float>(); misc<long double>(); }
// the functions of real numbers
#define REALS(X) MC_STATE("real numbers " #X); trace(); { typedef so::complex<double> C; (void)sizeof(C); eq("real(x)", (double)so::real(X), (double)X); eq("imag(x)", (double)so::imag(X), 0.); eq("norm(x)", (double)so::norm(X), (double)X * (double)X); eq("arg(x)", (double)so::arg(X), X < 0 ? (double)so::math::pi<decltype(so::arg(X))>() : 0.); \
	{ auto c = so::conj(X); value("conj(x)", so::complex<double>(c), (double)X, 0.); } { auto c = so::proj(X); value("proj(x)", so::complex<double>(c), (double)X, 0.); } { auto c = so::perp(X); value("perp(x)", so::complex<double>(c), 0., (double)X); } }
MC_SECTION(v07_reals) {
	for (int i = -3; i <= 3; ++i) { { double x = i; REALS(x); } { float x = i; REALS(x); } { long double x = i; REALS(x); } { int x = i; REALS(x); } { long x = i; REALS(x); } { short x = i; REALS(x); } if (i >= 0) { unsigned x = i; REALS(x); } }
	static_assert(std::is_same<decltype(so::conj(1)), so::complex<double>>::value && std::is_same<decltype(so::conj(1.f)), so::complex<float>>::value && std::is_same<decltype(so::proj(1.l)), so::complex<long double>>::value, "promotion");
	static_assert(std::is_same<decltype(so::norm(1)), double>::value && std::is_same<decltype(so::norm(1.f)), float>::value && std::is_same<decltype(so::arg(1.l)), long double>::value && std::is_same<decltype(so::imag(3)), double>::value, "promotion");
	for (int a = 0; a <= 3; ++a) for (int b = -3; b <= 3; ++b) { MC_STATE("polar of integers"); trace(); auto p = so::polar(a, (float)b); static_assert(std::is_same<decltype(p), so::complex<double>>::value, "promotion"); close("polar(int, float)", p, std::complex<L>(a * std::cos((L)b), a * std::sin((L)b)), TOL, all_open()); }
}
#endif
