// W03: vectors, rays, colours and parametric curves against their definitions; exact on small integers.
#include "mc.hpp"
#include <sprout/darkroom/access.hpp>
#include <sprout/darkroom/coords.hpp>
#include <sprout/darkroom/colors.hpp>
#include <sprout/darkroom/rays.hpp>
#include <sprout/darkroom/materials.hpp>
#include <sprout/darkroom/intersects.hpp>
#include <sprout/darkroom/objects.hpp>
#include <sprout/darkroom/textures.hpp>
#include <sprout/darkroom/lights.hpp>
#include <sprout/darkroom/cameras.hpp>
#include <sprout/math/curve/bezier.hpp>
#include <sprout/math/curve/catmull_rom_spline.hpp>
#include <sprout/array.hpp>
#include <sprout/array/tuple.hpp>
#include <sprout/tuple.hpp>
#include <vector>
#include <cmath>
using namespace mc;
namespace co = sprout::darkroom::coords;
namespace cl = sprout::darkroom::colors;
namespace ra = sprout::darkroom::rays;
typedef std::array<double, 3> D;
typedef co::vector3d_t V3;
typedef sprout::tuples::tuple<long double, long double, long double> V4;
typedef sprout::tuples::tuple<float, float, float> VF;
static std::string sd(double x) { char b[32]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string sh(D const& d) { return "(" + sd(d[0]) + "," + sd(d[1]) + "," + sd(d[2]) + ")"; }
template<class X> D d(X const& v) { return D{{(double)co::x(v), (double)co::y(v), (double)co::z(v)}}; }
static double dotd(D const& a, D const& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static D crossd(D const& a, D const& b) { return D{{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static D axpy(D const& a, D const& b, double k) { return D{{a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]}}; }
static void same(char const* op, D const& g, D const& w) { okd(op, g == w, [&] { return "got " + sh(g) + ", want " + sh(w); }); }
static void close(char const* op, D const& g, D const& w, double t = 1e-13) { bool b = true; for (int i = 0; i < 3; ++i) b = b && std::fabs(g[i] - w[i]) <= t * (1 + std::fabs(w[i])); okd(op, b, [&] { return "got " + sh(g) + ", want " + sh(w); }); }
static void num(char const* op, double g, double w, double t) { okd(op, std::fabs(g - w) <= t * (1 + std::fabs(w)), [&] { return "got " + sd(g) + ", want " + sd(w); }); }
template<class X> X mk(double, double, double);
template<> V3 mk<V3>(double x, double y, double z) { return co::vector3d(x, y, z); }
template<> V4 mk<V4>(double x, double y, double z) { return V4(x, y, z); }
template<> VF mk<VF>(double x, double y, double z) { return VF((float)x, (float)y, (float)z); }
static int reach() { return thorough() ? 3 : 2; }
template<class F> void grid(F f) { int n = reach(); for (int x = -n; x <= n; ++x) for (int y = -n; y <= n; ++y) for (int z = -n; z <= n; ++z) f(x, y, z); }
template<class X> void vectors(char const* kind) {
	double eps = std::max((double)std::numeric_limits<typename std::decay<decltype(co::x(std::declval<X const&>()))>::type>::epsilon(), std::numeric_limits<double>::epsilon()); // the oracle computes in double
	grid([&](int x, int y, int z) {
		X a = mk<X>(x, y, z); D A{{(double)x, (double)y, (double)z}}; MC_STATE(std::string(kind) + " " + sh(A)); trace();
		same("components", d(a), A); eq("is_zero", co::is_zero(a), x == 0 && y == 0 && z == 0); eq("length_sq", (double)co::length_sq(a), dotd(A, A)); num("length", co::length(a), std::sqrt(dotd(A, A)), 4 * eps);
		same("negate", d(co::negate(a)), D{{-A[0], -A[1], -A[2]}});
		for (int k = -3; k <= 3; ++k) { same("scale", d(co::scale(a, k)), D{{k * A[0], k * A[1], k * A[2]}}); same("scale", d(co::scale(a, k * 0.5)), D{{k * 0.5 * A[0], k * 0.5 * A[1], k * 0.5 * A[2]}}); }
		double l = std::sqrt(dotd(A, A));
		if (l > 0) { close("normalize", d(co::normalize(a)), D{{A[0] / l, A[1] / l, A[2] / l}}, 8 * eps); for (double r : {0.25, 1.0, 3.0, -2.0}) close("resize", d(co::resize(a, r)), D{{A[0] * r / l, A[1] * r / l, A[2] * r / l}}, 16 * eps); }
		grid([&](int u, int v, int w) {
			X b = mk<X>(u, v, w); D B{{(double)u, (double)v, (double)w}}; MC_STATE(std::string(kind) + " " + sh(A) + " with " + sh(B)); trace();
			same("add", d(co::add(a, b)), axpy(A, B, 1)); same("sub", d(co::sub(a, b)), axpy(A, B, -1)); eq("dot", (double)co::dot(a, b), dotd(A, B)); same("cross", d(co::cross(a, b)), crossd(A, B));
			V3 c = mk<V3>(u, v, w); same("add of another kind", d(co::add(a, c)), axpy(A, B, 1)); same("sub of another kind", d(co::sub(a, c)), axpy(A, B, -1)); same("cross of another kind", d(co::cross(a, c)), crossd(A, B));
			double m = std::sqrt(dotd(B, B)); if (m > 0) {
				X n = co::normalize(b); D N{{B[0] / m, B[1] / m, B[2] / m}};
				close("reflect", d(co::reflect(a, n)), axpy(A, N, -2 * dotd(A, N)), 64 * eps);
				if (l > 0) { X i = co::normalize(a); D I{{A[0] / l, A[1] / l, A[2] / l}}; double c = -dotd(I, N); if (c > 0.01) for (double e : {0.5, 0.75, 1.0, 1.5, 2.0}) {
					double k = e * e + c * c - 1; if (std::fabs(k) < 0.01) continue; D g = d(co::refract(i, n, e));
					if (k < 0) same("refract: total reflection", g, D{{0, 0, 0}});
					else { D T = axpy(I, N, c), w = axpy(D{{T[0] / e, T[1] / e, T[2] / e}}, N, -std::sqrt(std::max(0.0, 1 - dotd(T, T) / e / e))); close("refract: Snell's law", g, w, 512 * eps); }
				} }
			}
		});
	});
}
MC_SECTION(vectors_double) { vectors<V3>("vector"); }
MC_SECTION(vectors_more) { vectors<V4>("vector of long double"); vectors<VF>("vector of float"); }
MC_SECTION(rays) {
	grid([&](int x, int y, int z) { grid([&](int u, int v, int w) {
		D A{{(double)x, (double)y, (double)z}}, B{{(double)u, (double)v, (double)w}}; MC_STATE("ray from " + sh(A) + " along " + sh(B)); trace();
		V3 a = mk<V3>(x, y, z), b = mk<V3>(u, v, w); auto r = ra::make_ray(a, b); ra::ray q(a, b);
		same("position", d(ra::position(r)), A); same("direction", d(ra::direction(r)), B); same("position", d(ra::position(q)), A); same("direction", d(ra::direction(q)), B);
		for (int k = -2; k <= 4; ++k) same("point_of_intersection", d(ra::point_of_intersection(q, k * 0.5)), axpy(A, B, k * 0.5));
		double l = std::sqrt(dotd(B, B)); if (l > 0) { double e = std::numeric_limits<double>::epsilon(); D w = axpy(A, B, 256 * e / l), g = d(ra::detach_position(a, b)); bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && std::fabs(g[i] - w[i]) <= 8 * e; okd("detach_position", ok, [&] { return "got " + sh(g) + ", want " + sh(w); }); auto s = ra::make_detached_ray(a, b); same("make_detached_ray", d(ra::position(s)), g); same("make_detached_ray", d(ra::direction(s)), B); }
	}); });
}
template<class X> D c3(X const& c) { return D{{(double)cl::r(c), (double)cl::g(c), (double)cl::b(c)}}; }
MC_SECTION(colors) {
	typedef sprout::tuples::tuple<double, double, double, double> RGBA; std::vector<double> s{0, 0.25, 0.5, 1, 2};
	for (double r : s) for (double g : s) for (double b : s) {
		cl::rgb_f_t a = cl::rgb_f(r, g, b); RGBA q(r, g, b, 0.75); D A{{r, g, b}}; MC_STATE("colour " + sh(A)); trace();
		same("r, g, b", c3(a), A); eq("a", cl::a(a), 0.0); eq("a", cl::a(q), 0.75);
		for (double f : s) { same("mul", c3(cl::mul(a, f)), D{{r * f, g * f, b * f}}); for (double h : s) same("mul of two", c3(cl::mul(a, f, h)), D{{r * f * h, g * f * h, b * f * h}}); same("mul of three", c3(cl::mul(a, f, 2.0, 0.5)), D{{r * f, g * f, b * f}}); }
		for (double u : s) for (double v : s) for (double w : s) {
			cl::rgb_f_t o = cl::rgb_f(u, v, w), p = cl::rgb_f(w, u, v); same("add", c3(cl::add(a, o)), D{{r + u, g + v, b + w}}); same("filter", c3(cl::filter(a, o)), D{{r * u, g * v, b * w}}); same("add of three", c3(cl::add(a, o, p)), D{{r + u + w, g + v + u, b + w + v}}); same("filter of three", c3(cl::filter(a, o, p)), D{{r * u * w, g * v * u, b * w * v}});
		}
	}
	for (int i = -4; i <= 20; ++i) for (int j = -4; j <= 20; ++j) for (int k = -4; k <= 20; ++k) {
		MC_STATE("rgb_f_to_rgb of " + str(i) + "/16, " + str(j) + "/16, " + str(k) + "/16"); trace(); auto c = cl::rgb_f_to_rgb<cl::rgb_t>(cl::rgb_f(i / 16.0, j / 16.0, k / 16.0)); auto q = [](int i) { return i < 0 ? 0.0 : i > 16 ? 255.0 : std::floor(i / 16.0 * 255); }; same("rgb_f_to_rgb", c3(c), D{{q(i), q(j), q(k)}});
	}
	for (int i = 0; i < 256; ++i) { MC_STATE("rgb of " + str(i)); trace(); same("rgb", c3(cl::rgb(i, 255 - i, i ^ 85)), D{{(double)i, 255.0 - i, (double)(i ^ 85)}}); eq("a of rgb", (int)cl::a(cl::rgb(i)), 0); }
}
// ---- curves: every set of control points on a small grid, by de Casteljau and by the blending functions
typedef sprout::tuples::tuple<double, double> P;
typedef std::pair<double, double> PD;
static double casteljau(std::vector<double> v, double t) { for (std::size_t n = v.size(); n > 1; --n) for (std::size_t i = 0; i + 1 < n; ++i) v[i] = v[i] * (1 - t) + v[i + 1] * t; return v[0]; }
template<class R> void pt(char const* op, R const& g, double x, double y) { double a = sprout::tuples::get<0>(g), b = sprout::tuples::get<1>(g); okd(op, std::fabs(a - x) < 1e-12 && std::fabs(b - y) < 1e-12, [&] { return "got (" + sd(a) + "," + sd(b) + "), want (" + sd(x) + "," + sd(y) + ")"; }); }
template<class F> void points(int n, F f) { int m = thorough() ? 4 : 3; std::vector<int> c(n, 0); for (;;) { std::vector<double> x, y; for (int i = 0; i < n; ++i) { x.push_back(c[i] - 1); y.push_back((c[i] * (i + 2) + i) % 5 - 2); } f(x, y); int i = 0; while (i < n && ++c[i] == m) c[i++] = 0; if (i == n) break; } }
static double catmull(double a, double b, double c, double d, double t) { // Hermite form: tangents are half the chord of the neighbours
	double m = (c - a) / 2, n = (d - b) / 2, u = t * t, v = u * t; return (2 * v - 3 * u + 1) * b + (v - 2 * u + t) * m + (-2 * v + 3 * u) * c + (v - u) * n; }
MC_SECTION(curves) {
	std::vector<double> T; for (int i = -2; i <= 10; ++i) T.push_back(i / 8.0);
	auto p = [](std::vector<double> const& x, std::vector<double> const& y, int i) { return P(x[i], y[i]); };
	for (int n = 3; n <= 6; ++n) points(n, [&](std::vector<double> const& x, std::vector<double> const& y) { std::string s; for (int i = 0; i < n; ++i) s += "(" + str((int)x[i]) + "," + str((int)y[i]) + ")"; MC_STATE("curve through " + s); trace(); for (double t : T) { double X = casteljau(x, t), Y = casteljau(y, t);
#define PT(i) p(x, y, i)
		if (n == 3) { pt("bezier of 3", sprout::bezier(t, PT(0), PT(1), PT(2)), X, Y); pt("bezier of 3 in a tuple", sprout::bezier(t, sprout::tuples::tuple<P, P, P>(PT(0), PT(1), PT(2))), X, Y); pt("bezier of 3 in an array", sprout::bezier(t, sprout::array<P, 3>{{PT(0), PT(1), PT(2)}}), X, Y); pt("bezier<2>", sprout::bezier<2>(t, PT(0), PT(1), PT(2)), X, Y);
			auto lag = [&](std::vector<double> const& v, double s) { return v[0] * (s - 1) * (s - 2) / 2 - v[1] * s * (s - 2) + v[2] * s * (s - 1) / 2; };
			pt("catmull_rom_spline_start", sprout::catmull_rom_spline_start(t, PT(0), PT(1), PT(2)), lag(x, t), lag(y, t)); pt("catmull_rom_spline_end", sprout::catmull_rom_spline_end(t, PT(0), PT(1), PT(2)), lag(x, t + 1), lag(y, t + 1)); pt("catmull_rom_spline_start of an array", sprout::catmull_rom_spline_start(t, sprout::array<P, 3>{{PT(0), PT(1), PT(2)}}), lag(x, t), lag(y, t)); pt("catmull_rom_spline_end of an array", sprout::catmull_rom_spline_end(t, sprout::array<P, 3>{{PT(0), PT(1), PT(2)}}), lag(x, t + 1), lag(y, t + 1)); }
		if (n == 4) { pt("bezier of 4", sprout::bezier(t, PT(0), PT(1), PT(2), PT(3)), X, Y); pt("bezier<2> of 4", sprout::bezier<2>(t, PT(0), PT(1), PT(2), PT(3)), casteljau({x[0], x[1], x[2]}, t), casteljau({y[0], y[1], y[2]}, t)); double cx = catmull(x[0], x[1], x[2], x[3], t), cy = catmull(y[0], y[1], y[2], y[3], t); pt("catmull_rom_spline", sprout::catmull_rom_spline(t, PT(0), PT(1), PT(2), PT(3)), cx, cy); pt("catmull_rom_spline of an array", sprout::catmull_rom_spline(t, sprout::array<P, 4>{{PT(0), PT(1), PT(2), PT(3)}}), cx, cy); }
		if (n == 5) { pt("bezier of 5", sprout::bezier(t, PT(0), PT(1), PT(2), PT(3), PT(4)), X, Y); pt("bezier of 5 in an array", sprout::bezier(t, sprout::array<P, 5>{{PT(0), PT(1), PT(2), PT(3), PT(4)}}), X, Y); }
		if (n == 6) { pt("bezier of 6", sprout::bezier(t, PT(0), PT(1), PT(2), PT(3), PT(4), PT(5)), X, Y); }
	} });
}
// ---- objects: rays from every grid position in every grid direction; near-tangent cases are left out
namespace ob = sprout::darkroom::objects; namespace in = sprout::darkroom::intersects; namespace ma = sprout::darkroom::materials;
struct PickU { typedef double result_type; template<class U> constexpr double operator()(U u, U) const { return u; } };
struct PickV { typedef double result_type; template<class U> constexpr double operator()(U, U v) const { return v; } };
typedef sprout::tuples::tuple<PickU, PickV> Img;
struct Hit { int hit; double t; D n; double u, v; bool inside; }; // hit: 0 no, 1 yes, -1 too close to call
static D unit(D const& a) { double l = std::sqrt(dotd(a, a)); return D{{a[0] / l, a[1] / l, a[2] / l}}; }
static bool tiny(double x) { return std::fabs(x) < 1e-7; }
static Hit sphere(D const& c, double r, D const& p, D const& q) {
	D m = axpy(p, c, -1); double b = dotd(m, q), k = dotd(m, m) - r * r, h = b * b - k; if (tiny(h)) return Hit{-1, 0, p, 0, 0, false}; if (h < 0) return Hit{0, 0, p, 0, 0, false};
	double t1 = -b - std::sqrt(h), t2 = -b + std::sqrt(h); if (tiny(t1) || tiny(t2)) return Hit{-1, 0, p, 0, 0, false}; if (t2 < 0) return Hit{0, 0, p, 0, 0, false};
	double t = t1 > 0 ? t1 : t2; D n = unit(axpy(axpy(p, q, t), c, -1)); return Hit{1, t, t1 > 0 ? n : D{{-n[0], -n[1], -n[2]}}, std::atan2(n[2], n[0]) / M_PI, std::asin(std::max(-1.0, std::min(1.0, n[1]))) / (M_PI / 2), t1 < 0};
}
static Hit plane(int ax, double val, int face, D const& p, D const& q) {
	double s = p[ax] - val; if (tiny(s)) return Hit{-1, 0, p, 0, 0, false}; if (s * q[ax] >= 0) return Hit{0, 0, p, 0, 0, false};
	double t = -s / q[ax]; D n{{0, 0, 0}}; n[ax] = s > 0 ? 1 : -1; D x = axpy(p, q, t); int iu = ax == 0 ? 2 : 0, iv = ax == 1 ? 2 : 1;
	bool f = face == 0 ? false : face == 1 ? s < 0 : face == 2 ? s > 0 : val * s > 0; return Hit{1, t, n, x[iu], x[iv], f}; }
static Hit tri(D const& a, D const& b, D const& c, D const& p, D const& q) { // Moeller-Trumbore
	D e = axpy(b, a, -1), f = axpy(c, a, -1), h = crossd(q, f); double det = dotd(e, h); if (tiny(det)) return Hit{-1, 0, p, 0, 0, false};
	D s = axpy(p, a, -1); double u = dotd(s, h) / det; D g = crossd(s, e); double v = dotd(q, g) / det, t = dotd(f, g) / det; if (tiny(u) || tiny(v) || tiny(u + v - 1) || tiny(t)) return Hit{-1, 0, p, 0, 0, false};
	return Hit{u > 0 && v > 0 && u + v < 1 && t > 0, t, p, u, v, false}; }
template<class X> void judge(char const* op, X const& g, Hit const& w, D const& p, D const& q, bool full) {
	if (w.hit < 0) return;
	okd(op, in::does_intersect(g) == (w.hit == 1), [&] { return "hit " + str((int)in::does_intersect(g)) + ", want " + str(w.hit); }); if (!w.hit || !in::does_intersect(g)) return;
	num("distance", in::distance(g), w.t, 1e-11); close("point of intersection", d(in::point_of_intersection(g)), axpy(p, q, w.t), 1e-11);
	if (full) { close("normal", d(in::normal(g)), w.n, 1e-11); num("texture u", ma::color(in::material(g)), w.u, 1e-9); num("texture v", ma::reflection(in::material(g)), w.v, 1e-9); eq("is_from_inside", in::is_from_inside(g), w.inside); }
}
template<class F> void aims(F f) { int n = reach(); grid([&](int x, int y, int z) { for (int u = -n; u <= n; ++u) for (int v = -n; v <= n; ++v) for (int w = -n; w <= n; ++w) if (u || v || w) { D p{{x + 0.1, y + 0.2, z - 0.3}}, q = unit(D{{(double)u, (double)v, (double)w}}); f(p, q, ra::make_ray(mk<V3>(p[0], p[1], p[2]), mk<V3>(q[0], q[1], q[2]))); } }); }
MC_SECTION(spheres) {
	for (double r : {0.5, 1.0, 1.75}) for (D const& c : {D{{0, 0, 0}}, D{{0.5, -0.25, 1}}}) { auto s = ob::make_sphere(mk<V3>(c[0], c[1], c[2]), r, Img()); aims([&](D const& p, D const& q, ra::ray const& y) { MC_STATE("sphere at " + sh(c) + " of radius " + sd(r) + ", ray from " + sh(p) + " along " + sh(q)); trace(); judge("sphere", s.intersect(y), sphere(c, r, p, q), p, q, true); }); }
}
MC_SECTION(planes) {
	typedef ob::aa_plane_direction A; typedef ob::aa_plane_face F; A::values a[] = {A::x, A::y, A::z}; F::values f[] = {F::both, F::negative, F::positive, F::same_as_direction};
	for (int i = 0; i < 3; ++i) for (int k = 0; k < 4; ++k) for (double val : {-0.5, 1.0}) { auto s = ob::make_aa_plane(a[i], val, Img(), f[k]); aims([&](D const& p, D const& q, ra::ray const& y) { MC_STATE("plane " + str(i) + " at " + sd(val) + " face " + str(k) + ", ray from " + sh(p) + " along " + sh(q)); trace(); judge("plane", s.intersect(y), plane(i, val, k, p, q), p, q, true); }); }
}
MC_SECTION(triangles) {
	D v[] = {{{0, 0, 0}}, {{1, 0, 0.5}}, {{-1, 1, 0}}, {{0.5, -1, 1}}, {{0, 1.5, -1}}};
	for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < 5; ++k) if (i != j && j != k && i != k) { auto m = [](D const& x) { return mk<V3>(x[0], x[1], x[2]); }; auto s = ob::make_triangle(Img(), m(v[i]), m(v[j]), m(v[k])); aims([&](D const& p, D const& q, ra::ray const& y) { MC_STATE("triangle " + str(i) + str(j) + str(k) + ", ray from " + sh(p) + " along " + sh(q)); trace(); judge("triangle", s.intersect(y), tri(v[i], v[j], v[k], p, q), p, q, false); }); }
}
MC_SECTION(scenes) { // the nearest of several objects
	D c{{0, 0, 0}}, e{{1, 0.5, -1}}; auto s = ob::make_sphere(mk<V3>(0, 0, 0), 1.0, Img()); auto t = ob::make_sphere(mk<V3>(1, 0.5, -1), 0.75, Img()); auto w = ob::make_aa_plane(ob::aa_plane_direction::y, -1.25, Img());
	aims([&](D const& p, D const& q, ra::ray const& y) { MC_STATE("scene, ray from " + sh(p) + " along " + sh(q)); trace(); Hit h[] = {sphere(c, 1, p, q), sphere(e, 0.75, p, q), plane(1, -1.25, 0, p, q)}; Hit b{0, 0, p, 0, 0, false}; for (Hit const& x : h) { if (x.hit < 0) return; if (x.hit && (!b.hit || x.t < b.t)) b = x; } judge("nearest object", ob::intersect(sprout::tuples::make_tuple(s, t, w), y), b, p, q, true); judge("nearest object", ob::intersect(sprout::tuples::make_tuple(w, t, s), y), b, p, q, true); });
}
// ---- lights: the shaded colour of the nearest point, with shadows cast by every object
namespace li = sprout::darkroom::lights; namespace ca = sprout::darkroom::cameras;
MC_SECTION(lights) {
	D c{{0, 0, 0}}, e{{1, 0.5, -1}}; auto mat = ma::make_uniform_material_image(cl::rgb_f(0.5, 0.25, 1), 0.5); auto s = ob::make_sphere(mk<V3>(0, 0, 0), 1.0, mat); auto t = ob::make_sphere(mk<V3>(1, 0.5, -1), 0.75, mat); auto w = ob::make_aa_plane(ob::aa_plane_direction::y, -1.25, mat); auto objs = sprout::tuples::make_tuple(s, t, w);
	cl::rgb_f_t col = cl::rgb_f(1, 0.5, 0.75), amb = cl::rgb_f(0.25, 0.5, 1); auto shade = [](double k) { return D{{0.5 * k, 0.125 * k, 0.75 * k}}; }; D ambient{{0.125, 0.125, 1}}; auto al = li::make_ambient_light(amb);
	aims([&](D const& p, D const& q, ra::ray const& y) {
		MC_STATE("lit scene, ray from " + sh(p) + " along " + sh(q)); trace(); Hit h[] = {sphere(c, 1, p, q), sphere(e, 0.75, p, q), plane(1, -1.25, 0, p, q)}; int b = -1; for (int i = 0; i < 3; ++i) { if (h[i].hit < 0) return; if (h[i].hit && (b < 0 || h[i].t < h[b].t)) b = i; } if (b < 0 || h[b].inside) return;
		D x = axpy(p, q, h[b].t), n = h[b].n; auto hit = ob::intersect(objs, y); close("ambient light", c3(li::calculate(al, hit, objs)), ambient);
		// 1 lit, 0 in shadow, -1 too close to call: the object itself shades its own far side
		auto shadow = [&](D const& l, double far) { double k = dotd(l, n); if (std::fabs(k) < 0.05) return -1; if (b < 2 && k < 0) { double t2 = 2 * -k * (b ? 0.75 : 1); if (std::fabs(t2 - far) < 1e-6) return -1; if (t2 < far) return 0; } for (int i = 0; i < 3; ++i) if (i != b) { Hit g = i == 0 ? sphere(c, 1, x, l) : i == 1 ? sphere(e, 0.75, x, l) : plane(1, -1.25, 0, x, l); if (g.hit < 0 || std::fabs(g.t - far) < 1e-6) return -1; if (g.hit && g.t < far) return 0; } return 1; };
		for (D const& dir : {D{{0, 1, 0}}, D{{1, 2, -1}}, D{{-2, 1, 0.5}}, D{{0, -1, -3}}}) { D l = unit(dir); int k = shadow(l, HUGE_VAL); if (k < 0) continue; auto pl = li::make_parallel_light(mk<V3>(dir[0], dir[1], dir[2]), col); D v = shade(k ? std::max(0.0, dotd(l, n)) : 0); close("parallel light", c3(li::calculate(pl, hit, objs)), v, 1e-10); close("two lights", c3(li::calculate(sprout::tuples::make_tuple(al, pl), hit, objs)), axpy(v, ambient, 1), 1e-10); close("three lights", c3(li::calculate(sprout::tuples::make_tuple(pl, al, pl), hit, objs)), axpy(ambient, v, 2), 1e-10); }
		for (D const& at : {D{{0, 3, 0}}, D{{2.5, 1, -3}}, D{{-1, 0.5, 1.5}}, D{{0.25, -3, 0.5}}}) { D m = axpy(at, x, -1); double far = std::sqrt(dotd(m, m)); if (far < 0.01) continue; D l = unit(m); int k = shadow(l, far); if (k < 0) continue; auto pl = li::make_point_light(mk<V3>(at[0], at[1], at[2]), col); close("point light", c3(li::calculate(pl, hit, objs)), shade(k ? std::max(0.0, dotd(l, n) / (far + 1)) : 0), 1e-10); }
	});
}
MC_SECTION(cameras) {
	typedef ca::angle_of_view_reference R; R::values rs[] = {R::long_side, R::short_side, R::width, R::height};
	for (int ri = 0; ri < 4; ++ri) for (double far : {0.5, 1.0, 2.5}) for (double rot : {0.0, 0.5, -2.0}) for (D const& pos : {D{{0, 0, -1}}, D{{1, 2, 3}}}) for (D const& fix : {D{{0, 0, 0}}, D{{-1, 0.5, 1}}}) {
		auto c = ca::make_simple_camera(far, rs[ri], mk<V3>(pos[0], pos[1], pos[2]), mk<V3>(fix[0], fix[1], fix[2]), rot);
		for (int W : {4, 6, 9}) for (int H : {4, 6, 7}) for (int x = 0; x <= W; ++x) for (int y = 0; y <= H; ++y) {
			MC_STATE("camera " + str(ri) + " far " + sd(far) + " turned " + sd(rot) + " at " + sh(pos) + " towards " + sh(fix) + ", pixel " + str(x) + "," + str(y) + " of " + str(W) + "x" + str(H)); trace();
			bool byw = ri == 0 ? W >= H : ri == 1 ? W < H : ri == 2; double u = (double)x / W - 0.5, v = 0.5 - (double)y / H; (byw ? v : u) *= byw ? (double)H / W : (double)W / H;
			double a = u * std::cos(rot) - v * std::sin(rot), b = u * std::sin(rot) + v * std::cos(rot); D f = unit(axpy(fix, pos, -1)), F{{f[0] * far, f[1] * far, f[2] * far}}, up{{0, 1, 0}}, right = unit(crossd(up, f)); auto g = ca::calculate(c, x, y, W, H);
			same("ray starts at the camera", d(ra::position(g)), pos); close("ray through the pixel", d(ra::direction(g)), unit(axpy(axpy(F, right, a), up, b)), 1e-11);
		}
	}
}
MC_SECTION(materials) {
	for (double sc : {1.0, 2.0, 0.5}) { auto e = ma::make_plaid(1, 2, sc); for (int i = -40; i <= 40; ++i) for (int j = -40; j <= 40; ++j) { double u = i / 16.0 + 0.01, v = j / 16.0 + 0.01; MC_STATE("plaid of " + sd(sc) + " at " + sd(u) + "," + sd(v)); trace(); auto half = [&](double x) { return (long)std::floor(x / (sc / 2)) & 1; }; eq("plaid", e(u, v), half(u) == half(v) ? 1 : 2); if (sc == 1) { eq("plaid of unit scale", ma::make_plaid(1, 2)(u, v), half(u) == half(v) ? 1 : 2); } eq("uniform", ma::make_uniform(3)(u, v), 3); } }
	cl::rgb_f_t k[] = {cl::rgb_f(0, 1, 2), cl::rgb_f(1, 0, 4), cl::rgb_f(3, 5, 0), cl::rgb_f(7, 2, 1)};
	for (int i = 0; i <= 8; ++i) for (int j = 0; j <= 8; ++j) for (int m = 0; m < 256; ++m) { double u = i / 8.0, v = j / 8.0; MC_STATE("bilinear " + str(m) + " at " + sd(u) + "," + sd(v)); trace(); D c[4]; for (int n = 0; n < 4; ++n) c[n] = c3(k[m >> 2 * n & 3]); D w; for (int n = 0; n < 3; ++n) w[n] = c[0][n] * (1 - u) * (1 - v) + c[1][n] * u * (1 - v) + c[2][n] * (1 - u) * v + c[3][n] * u * v; close("bilinear_interpolate", c3(ma::bilinear_interpolate(k[m & 3], k[m >> 2 & 3], k[m >> 4 & 3], k[m >> 6 & 3], u, v)), w); }
}
MC_SECTION(textures) { // texel of the floor of each coordinate, or the blend of the four around
	namespace tx = sprout::darkroom::textures; tx::info_type info = {0, 0, 3, 2}; tx::image_type<3, 2> img(info, 0x102030, 0x405060, 0x708090, 0xA0B0C0, 0xD0E0F0, 0x0080FF);
	unsigned raw[] = {0x102030, 0x405060, 0x708090, 0xA0B0C0, 0xD0E0F0, 0x0080FF}; auto texel = [&](long x, long y) { unsigned c = raw[y * 3 + x]; return D{{(c >> 16 & 255) / 255.0, (c >> 8 & 255) / 255.0, (c & 255) / 255.0}}; };
	for (int x = 0; x < 3; ++x) for (int y = 0; y < 2; ++y) { MC_STATE("texel"); trace(); close("image", c3(img(x, y)), texel(x, y)); } eq("image size", img.width() * 10 + img.height(), (std::size_t)32);
	typedef ma::interpolation_type I; typedef ma::texture_map_placement T; D def{{9, 8, 7}};
	for (int k = 0; k < 4; ++k) for (double sc : {1.0, 2.0, 0.5}) for (double ou : {0.0, 0.25}) for (double ov : {0.0, -0.5}) {
		bool once = k & 1, bil = k & 2; auto m = ma::make_texture_map(img, sc, ou, ov, cl::rgb_f(9, 8, 7), bil ? I::bilinear : I::nearest_neighbor, once ? T::once : T::tile);
		auto at = [&](double x, double y) { long i = (long)std::floor(x), j = (long)std::floor(y); if (once && (i < 0 || i > 2 || j < 0 || j > 1)) return def; return texel((i % 3 + 3) % 3, (j % 2 + 2) % 2); };
		for (int i = -24; i <= 24; ++i) for (int j = -24; j <= 24; ++j) for (double nudge : {0.0, 0.01}) {
			double u = i / 12.0 + nudge, v = j / 8.0 + nudge; MC_STATE("texture " + str(k) + " of " + sd(sc) + " from " + sd(ou) + "," + sd(ov) + " at " + sd(u) + "," + sd(v)); trace(); double x = (u - ou + sc / 2) / sc * 3, y = (-(v - ov) + sc / 2) / sc * 2;
			if (nudge == 0 && (x != std::floor(x) ? std::fabs(x - std::round(x)) < 1e-9 : i % 3 != 0)) continue; // only coordinates that are exact
			D w; if (!bil) w = at(x, y); else { double a = std::floor(x), b = std::floor(y), p = x - a, q = y - b; D c00 = at(a, b), c01 = at(a + 1, b), c10 = at(a, b + 1), c11 = at(a + 1, b + 1); for (int n = 0; n < 3; ++n) w[n] = (c00[n] * (1 - p) + c01[n] * p) * (1 - q) + (c10[n] * (1 - p) + c11[n] * p) * q; }
			close(once ? "texture placed once" : "tiled texture", c3(m(u, v)), w, 1e-11);
			if (k == 0 && ou == 0 && ov == 0) { close("texture of default placement", c3(ma::make_texture_map(img, sc)(u, v)), w, 1e-11); if (sc == 1) close("texture of unit scale", c3(ma::make_texture_map(img)(u, v)), w, 1e-11); }
		}
	}
}
