// M04: quaternion algebra
#include "mc.hpp"
#include <sprout/math/quaternion.hpp>
#include <sprout/math/quaternion/tuple.hpp>
#include <sprout/math/quaternion/container.hpp>
#include <sprout/complex.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/container.hpp>
#include <cmath>
using namespace mc;
namespace so = sprout;
namespace qm = sprout::math;
template<class T> using Q = qm::quaternion<T>;
typedef long double L;
// reference: four numbers
struct R { L v[4]; };
inline R r4(L a, L b, L c, L d) { R r = {{a, b, c, d}}; return r; }
inline R add(R x, R y) { for (int i = 0; i < 4; ++i) x.v[i] += y.v[i]; return x; }
inline R sub(R x, R y) { for (int i = 0; i < 4; ++i) x.v[i] -= y.v[i]; return x; }
inline R neg(R x) { for (int i = 0; i < 4; ++i) x.v[i] = -x.v[i]; return x; }
inline R cj(R x) { for (int i = 1; i < 4; ++i) x.v[i] = -x.v[i]; return x; }
// Hamilton's rules: i*i = j*j = k*k = -1, ij = k, jk = i, ki = j
inline R mul(R const& x, R const& y) { static int const idx[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}}; static int const sg[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}}; R r = r4(0, 0, 0, 0); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.v[idx[i][j]] += sg[i][j] * x.v[i] * y.v[j]; return r; }
inline L nrm(R const& x) { L s = 0; for (int i = 0; i < 4; ++i) s += x.v[i] * x.v[i]; return s; }
inline R sc(R x, L k) { for (int i = 0; i < 4; ++i) x.v[i] *= k; return x; }
inline R dv(R const& x, R const& y) { return sc(mul(x, cj(y)), 1 / nrm(y)); }
inline std::string str(R const& r) { return "(" + mc::str((double)r.v[0]) + "," + mc::str((double)r.v[1]) + "," + mc::str((double)r.v[2]) + "," + mc::str((double)r.v[3]) + ")"; }
template<class T> R rd(Q<T> const& q) { return r4(q.R_component_1(), q.R_component_2(), q.R_component_3(), q.R_component_4()); }
template<class T> Q<T> mk(R const& r) { return Q<T>((T)r.v[0], (T)r.v[1], (T)r.v[2], (T)r.v[3]); }
inline bool same4(R const& a, R const& b) { for (int i = 0; i < 4; ++i) if (!(a.v[i] == b.v[i])) return false; return true; }
inline uint64_t h4(R const& a) { uint64_t h = 0; for (int i = 0; i < 4; ++i) h = hmix(h, hval((double)a.v[i])); return h; }
template<class T> void same(const char* op, Q<T> const& q, R const& w) { hit(op, h4(w)); R g = rd(q); if (!same4(g, w)) report(op, "got " + str(g) + " want " + str(w)); }
template<class T> void near(const char* op, Q<T> const& q, R const& w, L scale, L ulps = 8) { hit(op, h4(w)); R g = rd(q); for (int i = 0; i < 4; ++i) if (!(std::fabs(g.v[i] - w.v[i]) <= ulps * std::numeric_limits<T>::epsilon() * scale)) { report(op, "got " + str(g) + " want " + str(w)); return; } }
template<class T> void nears(const char* op, T g, L w, L ulps = 8) { hit(op, hval((double)w)); if (!(std::fabs((L)g - w) <= ulps * std::numeric_limits<T>::epsilon() * std::fabs(w))) report(op, "got " + mc::str(g) + " want " + mc::str(w)); }
template<class F> void grid(int lo, int hi, F const& f) { for (int a = lo; a <= hi; ++a) for (int b = lo; b <= hi; ++b) for (int c = lo; c <= hi; ++c) for (int d = lo; d <= hi; ++d) f(r4(a, b, c, d)); }
// ----- the primary template (an element type without a specialisation) and the three specialisations
template<class T> struct Flt { static bool const value = std::is_floating_point<T>::value; };
template<class T> void division(R const& x, R const& y, std::true_type) {
	Q<T> p = mk<T>(x), q = mk<T>(y), m; if (nrm(y) != 0) { R w = dv(x, y); L s = std::sqrt(nrm(x) / nrm(y)); near("q / q", p / q, w, s); m = p; m /= q; near("q /= q", m, w, s); m = p; Q<T>& r = (m /= q); ok("/= returns its operand", &r == &m); near("(q / p) * p", (p / q) * q, x, std::sqrt(nrm(x)), 16); }
}
template<class T> void division(R const&, R const&, std::false_type) {}
template<class T> void pairs(R const& x, R const& y) {
	Q<T> p = mk<T>(x), q = mk<T>(y); same("q + q", p + q, add(x, y)); same("q - q", p - q, sub(x, y)); same("q * q", p * q, mul(x, y)); eq("q == q", p == q, same4(x, y)); eq("q != q", p != q, !same4(x, y)); Q<T> m = p; same("+=", m += q, add(x, y)); same("+=", m, add(x, y)); m = p; same("-=", m -= q, sub(x, y)); m = p; same("*=", m *= q, mul(x, y)); same("*=", m, mul(x, y)); m = p; m = q; same("=", m, y); division<T>(x, y, std::integral_constant<bool, Flt<T>::value>()); trace();
}
template<class T> void scalardiv(Q<T> const& p, R const& x, T k, so::complex<T> const& z, std::true_type) {
	R rk = r4(k, 0, 0, 0), rz = r4(z.real(), z.imag(), 0, 0); L nx = std::sqrt(nrm(x)), nz = std::sqrt(nrm(rz)); Q<T> m;
	if (k != 0) { near("q / r", p / k, dv(x, rk), nx / std::fabs((L)k), 2); m = p; near("q /= r", m /= k, dv(x, rk), nx / std::fabs((L)k), 2); } if (nz != 0) { near("q / c", p / z, dv(x, rz), nx / nz); m = p; near("q /= c", m /= z, dv(x, rz), nx / nz); } if (nx != 0) { near("r / q", k / p, dv(rk, x), std::fabs((L)k) / nx); near("c / q", z / p, dv(rz, x), nz / nx); }
}
template<class T> void scalardiv(Q<T> const&, R const&, T, so::complex<T> const&, std::false_type) {}
template<class T> void scalars(R const& x, int re, int im) {
	Q<T> p = mk<T>(x), m; T k = (T)re; so::complex<T> z((T)re, (T)im); R rk = r4(re, 0, 0, 0), rz = r4(re, im, 0, 0);
	same("q + r", p + k, add(x, rk)); same("r + q", k + p, add(rk, x)); same("q - r", p - k, sub(x, rk)); same("r - q", k - p, sub(rk, x)); same("q * r", p * k, mul(x, rk)); same("r * q", k * p, mul(rk, x)); eq("q == r", p == k, same4(x, rk)); eq("r == q", k == p, same4(x, rk)); eq("q != r", p != k, !same4(x, rk)); eq("r != q", k != p, !same4(x, rk));
	same("q + c", p + z, add(x, rz)); same("c + q", z + p, add(rz, x)); same("q - c", p - z, sub(x, rz)); same("c - q", z - p, sub(rz, x)); same("q * c", p * z, mul(x, rz)); same("c * q", z * p, mul(rz, x)); eq("q == c", p == z, same4(x, rz)); eq("c == q", z == p, same4(x, rz)); eq("q != c", p != z, !same4(x, rz)); eq("c != q", z != p, !same4(x, rz));
	m = p; same("q += r", m += k, add(x, rk)); m = p; same("q -= r", m -= k, sub(x, rk)); m = p; same("q *= r", m *= k, mul(x, rk)); m = p; same("q += c", m += z, add(x, rz)); m = p; same("q -= c", m -= z, sub(x, rz)); m = p; same("q *= c", m *= z, mul(x, rz)); m = p; m = k; same("q = r", m, rk); m = p; m = z; same("q = c", m, rz); scalardiv<T>(p, x, k, z, std::integral_constant<bool, Flt<T>::value>()); trace();
}
template<class T> void floating(Q<T> const& p, R const& x, L s1, L su, std::true_type) { eq("l1", (L)l1(p), s1); eq("sup", (L)sup(p), su); same("to float", Q<float>(p), x); same("to double", Q<double>(p), x); same("to long double", Q<long double>(p), x); Q<double> d; d = p; same("= other", d, x); 
	d = Q<double>(); d += p; same("+= other", d, x); d -= p; same("-= other", d, r4(0, 0, 0, 0)); d = 1.0; d *= p; same("*= other", d, x);
}
template<class T> void floating(Q<T> const& p, R const& x, L, L, std::false_type) { Q<double> d; d = p; same("= other", d, x); d += p; same("+= other", d, add(x, x)); Q<long> l(p); same("to long", l, x); l -= p; same("-= other", l, r4(0, 0, 0, 0)); }
template<class T> void single(R const& x) {
	Q<T> p = mk<T>(x); same("construct", p, x); same("+q", +p, x); same("-q", -p, neg(x)); same("conj", conj(p), cj(x)); same("unreal", p.unreal(), r4(0, x.v[1], x.v[2], x.v[3])); same("unreal function", unreal(p), r4(0, x.v[1], x.v[2], x.v[3])); eq("real", (L)p.real(), x.v[0]); eq("real function", (L)real(p), x.v[0]); eq("norm", (L)norm(p), nrm(x)); L s1 = 0, su = 0; for (L v : x.v) { s1 += std::fabs(v); su = std::max(su, std::fabs(v)); }
	same("from complexes", Q<T>(p.C_component_1(), p.C_component_2()), x); same("from complex", Q<T>(so::complex<T>((T)x.v[0], (T)x.v[1])), r4(x.v[0], x.v[1], 0, 0)); same("from one", Q<T>((T)x.v[0]), r4(x.v[0], 0, 0, 0)); same("from two", Q<T>((T)x.v[0], (T)x.v[1]), r4(x.v[0], x.v[1], 0, 0)); same("from three", Q<T>((T)x.v[0], (T)x.v[1], (T)x.v[2]), r4(x.v[0], x.v[1], x.v[2], 0)); same("default", Q<T>(), r4(0, 0, 0, 0)); same("copy", Q<T>(p), x); same("conjugation reverses", conj(p) * p, r4(nrm(x), 0, 0, 0));
	floating<T>(p, x, s1, su, std::integral_constant<bool, Flt<T>::value>());
	Q<T> const& c = p; std::vector<L> w(x.v, x.v + 4), rw(w.rbegin(), w.rend()); auto V = [](std::vector<T> const& v) { return std::vector<L>(v.begin(), v.end()); };
	eq("begin/end", V(std::vector<T>(p.begin(), p.end())), w); eq("const begin/end", V(std::vector<T>(c.begin(), c.end())), w); eq("cbegin/cend", V(std::vector<T>(c.cbegin(), c.cend())), w); eq("rbegin/rend", V(std::vector<T>(p.rbegin(), p.rend())), rw); eq("const rbegin/rend", V(std::vector<T>(c.rbegin(), c.rend())), rw); eq("crbegin/crend", V(std::vector<T>(c.crbegin(), c.crend())), rw); eq("size", p.size(), (std::size_t)4); eq("max_size", p.max_size(), (std::size_t)4); eq("empty", p.empty(), false); eq("front", (L)p.front(), w[0]); eq("back", (L)p.back(), w[3]); eq("const front", (L)c.front(), w[0]); eq("const back", (L)c.back(), w[3]); eq("data", V(std::vector<T>(c.data(), c.data() + 4)), w); eq("c_array", V(std::vector<T>(p.c_array(), p.c_array() + 4)), w);
	for (int i = 0; i < 4; ++i) { eq("[]", (L)p[i], w[i]); eq("const []", (L)c[i], w[i]); eq("at", (L)p.at(i), w[i]); eq("const at", (L)c.at(i), w[i]); Q<T> m = p; m[i] = 9; R y = x; y.v[i] = 9; same("[] writes", m, y); m = p; m.at(i) = 9; same("at writes", m, y); m = p; *(m.begin() + i) = 9; same("iterator writes", m, y); } for (std::size_t i : {(std::size_t)4, (std::size_t)-1}) { int t = 0; try { (void)c.at(i); } catch (std::out_of_range const&) { t = 1; } eq("at outside", t, 1); }
	eq("tuple get 0", (L)so::tuples::get<0>(c), w[0]); eq("tuple get 1", (L)so::tuples::get<1>(c), w[1]); eq("tuple get 2", (L)so::tuples::get<2>(p), w[2]); eq("tuple get 3", (L)so::tuples::get<3>(p), w[3]); Q<T> m = p; so::tuples::get<2>(m) = 7; same("tuple get writes", m, r4(x.v[0], x.v[1], 7, x.v[3])); eq("tuple get of a temporary", (L)so::tuples::get<1>(Q<T>(p)), w[1]); static_assert(std::tuple_size<Q<T> >::value == 4 && std::is_same<typename std::tuple_element<3, Q<T> >::type, T>::value, "");
	trace();
}
template<class T> void powers(R const& x) { Q<T> p = mk<T>(x); R w = r4(1, 0, 0, 0); for (int n = 0; n <= 9; ++n) { same("pow", pow(p, n), w); w = mul(w, x); } nears("abs", abs(p), std::sqrt(nrm(x)), 4); if (nrm(x) != 0) { R inv = dv(r4(1, 0, 0, 0), x), v = inv; for (int n = 1; n <= 6; ++n) { near("negative pow", pow(p, -n), v, std::sqrt(nrm(v)), 32); v = mul(v, inv); } } else eq("abs of zero", (L)abs(p), (L)0); }
template<class T> void all(std::string const& n) {
	int const g = thorough() ? 2 : 1;
	grid(-2, 3, [&](R const& x) { MC_STATE(n + " " + str(x)); single<T>(x); for (int re = -2; re <= 3; ++re) for (int im = -2; im <= 2; ++im) scalars<T>(x, re, im); });
	grid(-g, g, [&](R const& x) { grid(-g, g, [&](R const& y) { MC_STATE(n + " " + str(x) + " and " + str(y)); pairs<T>(x, y); }); });
	// units and single large components against every small operand
	for (int i = 0; i < 4; ++i) for (int k : {-7, 2, 5}) grid(-2, 3, [&](R const& y) { R x = r4(1, -2, 3, -1); x.v[i] = k; MC_STATE(n + " " + str(x) + " and " + str(y)); pairs<T>(x, y); pairs<T>(y, x); });
}
MC_SECTION(algebra_float) { all<float>("float"); } MC_SECTION(algebra_double) { all<double>("double"); } MC_SECTION(algebra_long_double) { all<long double>("long double"); }
MC_SECTION(algebra_int) { int const g = 1; grid(-2, 3, [&](R const& x) { MC_STATE("int " + str(x)); single<int>(x); for (int re = -2; re <= 3; ++re) for (int im = -2; im <= 2; ++im) scalars<int>(x, re, im); }); grid(-g, g, [&](R const& x) { grid(-g, g, [&](R const& y) { MC_STATE("int " + str(x) + " and " + str(y)); pairs<int>(x, y); }); }); }
MC_SECTION(powers) { grid(-2, 3, [&](R const& x) { MC_STATE("powers of " + str(x)); powers<float>(x); powers<double>(x); powers<long double>(x); trace(); });
	for (int e : {-600, -300, -40, 0, 40, 300, 600, 1000}) grid(-1, 2, [&](R const& y) { R x = sc(y, std::ldexp((L)1, e)); MC_STATE("scaled " + str(y) + " by 2^" + str(e)); if (nrm(y) != 0) { nears("abs of scaled", abs(mk<double>(x)), std::sqrt(nrm(y)) * std::ldexp((L)1, e), 4); Q<double> p = mk<double>(x), q = mk<double>(y); if (e > -600 && e < 1000) { near("q / scaled q", q / p, sc(r4(1, 0, 0, 0), std::ldexp((L)1, -e)), std::ldexp((L)1, -e)); near("scaled q / q", p / q, sc(r4(1, 0, 0, 0), std::ldexp((L)1, e)), std::ldexp((L)1, e)); } } trace(); }); }
template<class T> void polar(std::string const& n) { for (int ir = 0; ir <= 3; ++ir) for (int a = -4; a <= 4; ++a) for (int b = -4; b <= 4; ++b) for (int c = -4; c <= 4; ++c) { T rho = ir, th = a * (T)0.375, p1 = b * (T)0.375, p2 = c * (T)0.375; MC_STATE(n + " rho " + str(ir) + " angles " + str(a) + " " + str(b) + " " + str(c) + " * 3/8"); L R0 = rho, A = th, B = p1, C = p2; L s = R0 + 1;
	near("spherical", qm::spherical(rho, th, p1, p2), r4(R0 * cosl(A) * cosl(B) * cosl(C), R0 * sinl(A) * cosl(B) * cosl(C), R0 * sinl(B) * cosl(C), R0 * sinl(C)), s); near("semipolar", qm::semipolar(rho, th, p1, p2), r4(R0 * cosl(A) * cosl(B), R0 * cosl(A) * sinl(B), R0 * sinl(A) * cosl(C), R0 * sinl(A) * sinl(C)), s); near("multipolar", qm::multipolar(rho, th, p1, p2), r4(R0 * cosl(A), R0 * sinl(A), B * cosl(C), B * sinl(C)), s + 2); near("cylindrical", qm::cylindrical(rho, th, p1, p2), r4(R0 * cosl(A), R0 * sinl(A), B, C), s + 2); near("cylindrospherical", qm::cylindrospherical(rho, th, p1, p2), r4(R0, A * cosl(B) * cosl(C), A * sinl(B) * cosl(C), A * sinl(C)), s + 2); trace(); } }
MC_SECTION(polar) { polar<float>("float"); polar<double>("double"); polar<long double>("long double"); }
MC_SECTION(literals) { using namespace sprout::literals; MC_STATE("literals"); same("_j", 2.5_j, r4(0, 0, 2.5L, 0)); same("_k", 2.5_k, r4(0, 0, 0, 2.5L)); same("_jf", 2.5_jf, r4(0, 0, 2.5L, 0)); same("_kf", 2.5_kf, r4(0, 0, 0, 2.5L)); same("_jF", 2.5_jF, r4(0, 0, 2.5L, 0)); same("_kF", 2.5_kF, r4(0, 0, 0, 2.5L)); same("_jl", 2.5_jl, r4(0, 0, 2.5L, 0)); same("_kl", 2.5_kl, r4(0, 0, 0, 2.5L)); same("_jL", 2.5_jL, r4(0, 0, 2.5L, 0)); same("_kL", 2.5_kL, r4(0, 0, 0, 2.5L)); same("i j", so::complex<double>(0, 1) * 1.0_j, r4(0, 0, 0, 1)); same("a+bi+cj+dk", 1.0 + (so::complex<double>(0, 2) + (3.0_j + 4.0_k)), r4(1, 2, 3, 4)); static_assert(std::is_same<decltype(1.0_j), Q<double> >::value && std::is_same<decltype(1.0_kf), Q<float> >::value && std::is_same<decltype(1.0_kl), Q<long double> >::value, ""); }
template<class Ch> std::basic_string<Ch> widen(std::string const& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
template<class Ch> void reading(std::string const& t, bool okay, R const& w, std::string const& rest) { MC_STATE("read " + t); std::basic_istringstream<Ch> is(widen<Ch>(t)); Q<double> q(7, 8, 9, 10); is >> q; eq("reading succeeds", !is.fail(), okay); same("read value", q, okay ? w : r4(7, 8, 9, 10)); if (okay) { is.clear(); std::basic_string<Ch> r; std::getline(is, r, Ch()); eq("rest of the stream", r == widen<Ch>(rest), true); } trace(); }
template<class Ch> void io() {
	std::vector<std::string> num = {"0", "-1", "2.5"}; std::vector<L> val = {0, -1, 2.5L};
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) for (int d = 0; d < 3; ++d) { std::string A = num[a], B = num[b], C = num[c], D = num[d]; L x = val[a], y = val[b], z = val[c], u = val[d];
		{ MC_STATE("write " + A + " " + B + " " + C + " " + D); std::basic_ostringstream<Ch> os; os << Q<double>((double)x, (double)y, (double)z, (double)u); eq("<<", os.str() == widen<Ch>("(" + A + "," + B + "," + C + "," + D + ")"), true); std::basic_istringstream<Ch> is(os.str()); Q<double> q; is >> q; ok("<< then >>", !is.fail()); same("<< then >>", q, r4(x, y, z, u)); std::basic_ostringstream<Ch> o2; o2.precision(3); o2.setf(std::ios_base::fixed | std::ios_base::showpos, std::ios_base::floatfield | std::ios_base::showpos); o2 << Q<double>((double)x, (double)y, (double)z, (double)u); char buf[99]; std::snprintf(buf, 99, "(%+.3f,%+.3f,%+.3f,%+.3f)", (double)x, (double)y, (double)z, (double)u); eq("<< with format", o2.str() == widen<Ch>(buf), true); std::basic_ostringstream<Ch> o3; o3.width(40); o3.fill(Ch('*')); o3 << Q<double>((double)x, (double)y, (double)z, (double)u); eq("<< with width", o3.str().size(), (std::size_t)40); }
		for (std::string sp : {"", " "}) for (std::string end : {"", "x", " 3"}) { std::string o = "(" + sp, m = sp + "," + sp, cl = sp + ")"; reading<Ch>(o + A + m + B + m + C + m + D + cl + end, true, r4(x, y, z, u), end); if (d) continue; reading<Ch>(o + A + m + B + m + C + cl + end, true, r4(x, y, z, 0), end); reading<Ch>(o + A + m + o + B + m + C + cl + cl + end, true, r4(x, 0, y, z), end); if (c) continue; reading<Ch>(o + A + m + B + cl + end, true, r4(x, y, 0, 0), end); reading<Ch>(o + o + A + m + B + cl + cl + end, true, r4(x, y, 0, 0), end); if (b) continue; reading<Ch>(o + A + cl + end, true, r4(x, 0, 0, 0), end); reading<Ch>(sp + A + end, true, r4(x, 0, 0, 0), end); }
		reading<Ch>("((" + A + "," + B + "),(" + C + "," + D + "))", true, r4(x, y, z, u), ""); std::string full = "(" + A + "," + B + "," + C + "," + D + ")", comp = "((" + A + "," + B + "),(" + C + "," + D + "))", mid = "(" + A + ",(" + B + "," + C + "))"; R dummy = r4(0, 0, 0, 0); if (a + b + c + d < 5) { for (std::size_t i = 0; i < full.size(); ++i) { reading<Ch>(full.substr(0, i), false, dummy, ""); } for (std::size_t i = 0; i < comp.size(); ++i) reading<Ch>(comp.substr(0, i), false, dummy, ""); for (std::size_t i = 0; i < mid.size(); ++i) reading<Ch>(mid.substr(0, i), false, dummy, ""); for (std::size_t i = 0; i < full.size(); ++i) if (full[i] == ',' || full[i] == ')') for (char bad : {';', '(', 'x'}) { std::string t = full; t[i] = bad; reading<Ch>(t, false, dummy, ""); } for (std::size_t i = 1; i < comp.size(); ++i) if (comp[i] == ',' || comp[i] == ')' ) for (char bad : {';', 'x'}) { std::string t = comp; t[i] = bad; reading<Ch>(t, false, dummy, ""); } reading<Ch>("(" + A + "," + B + "," + C + "," + D + ",1)", false, dummy, ""); }
	}
}
MC_SECTION(io) { io<char>(); io<wchar_t>(); }
