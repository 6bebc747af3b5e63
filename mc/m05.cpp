// M05: discrete and fast Fourier transforms, spectra and waves against their definitions, in long double.
#include "mc.hpp"
#include "iters.hpp"
#include <sprout/numeric/dft.hpp>
#include <sprout/numeric/fft.hpp>
#include <sprout/iterator/dft.hpp>
#include <sprout/iterator/wave.hpp>
#include <sprout/iterator.hpp>
#include <sprout/complex.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <complex>
#include <vector>
#include <map>
#include <cstring>
using namespace mc;
namespace so = sprout;
typedef long double L;
typedef std::complex<L> Z;
static L const PI = 3.14159265358979323846264338327950288L;
template<class T> using C = so::complex<T>;
template<class T> Z z(C<T> const& x) { return Z(x.real(), x.imag()); }
template<class T> std::string sh(T const& v) { return str((double)v); }
template<class T> std::string sh(C<T> const& v) { return "(" + str((double)v.real()) + "," + str((double)v.imag()) + ")"; }
static std::string sh(Z const& v) { return "(" + str((double)v.real()) + "," + str((double)v.imag()) + ")"; }
template<class T> L tol(L scale, L ulps) { return scale * ulps * (L)std::numeric_limits<T>::epsilon(); }
template<class T> void near(char const* op, C<T> const& g, Z const& w, L scale) { Z d = z(g) - w; L t = tol<T>(scale + 1, 32); bool b = std::fabs(d.real()) <= t && std::fabs(d.imag()) <= t; okd(op, b, [&] { return "got " + sh(g) + ", want " + sh(w); }); }
template<class T> void nearr(char const* op, T g, L w, L scale, L ulps = 32) { bool b = std::fabs((L)g - w) <= tol<T>(scale, ulps); okd(op, b, [&] { return "got " + sh(g) + ", want " + sh((double)w); }); }
typedef std::vector<std::pair<int, int> > Seq; // small integer samples
static std::string show(Seq const& s) { std::string r; for (auto& p : s) r += "(" + str(p.first) + "," + str(p.second) + ")"; return r; }
// the definition
static Z root(std::size_t k, std::size_t n) { static std::map<std::pair<std::size_t, std::size_t>, Z> m; auto it = m.find({k, n}); if (it != m.end()) return it->second; L a = 2 * PI * (L)k / (L)n; return m[{k, n}] = Z(cosl(a), sinl(a)); }
static std::vector<Z> def(Seq const& s, int sign) { std::size_t n = s.size(); std::vector<Z> r(n); for (std::size_t k = 0; k < n; ++k) for (std::size_t j = 0; j < n; ++j) { Z w = root(k * j % n, n); r[k] += Z(s[j].first, s[j].second) * (sign < 0 ? std::conj(w) : w); } if (sign > 0) for (auto& v : r) v /= (L)n; return r; }
static L weight(Seq const& s) { L r = 0; for (auto& p : s) r += std::fabs((L)p.first) + std::fabs((L)p.second); return r * (1 + s.size()); }
template<class T> std::vector<C<T> > conv(Seq const& s) { std::vector<C<T> > r; for (auto& p : s) r.push_back(C<T>((T)p.first, (T)p.second)); return r; }
template<class T, std::size_t N> so::array<C<T>, N> marks() { so::array<C<T>, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = C<T>((T)(100 + i), (T)7); return a; }
template<class T, class A> void window(char const* op, A const& r, std::size_t total, std::size_t lo, std::size_t len, std::vector<Z> const& w, L sc) {
	for (std::size_t i = 0; i < total; ++i) if (i >= lo && i < lo + len) near(op, r[i], w[i - lo], sc); else okd(op, z(r[i]) == Z(100 + (L)i, 7), [&] { return "position " + str(i) + " outside the result became " + sh(r[i]); });
}
template<class T, std::size_t N, class It> void dests(It f, It l, Seq const& s, std::vector<Z> const& fw, std::vector<Z> const& iw, L sc, bool windows) {
	std::size_t n = s.size(), m = std::min(n, N); so::array<C<T>, N> d = marks<T, N>();
	window<T>("fixed::dft", so::fixed::dft(f, l, d), N, 0, m, fw, sc); window<T>("fixed::idft", so::fixed::idft(f, l, d), N, 0, m, iw, sc);
	{ auto r = so::fit::dft(f, l, d); eq("fit::dft size", (std::size_t)r.size(), m); for (std::size_t i = 0; i < m && i < r.size(); ++i) near("fit::dft", r[i], fw[i], sc); auto q = so::fit::idft(f, l, d); eq("fit::idft size", (std::size_t)q.size(), m); for (std::size_t i = 0; i < m && i < q.size(); ++i) near("fit::idft", q[i], iw[i], sc); }
	if (n == N) { auto r = so::fixed::dft<so::array<C<T>, N> >(f, l); for (std::size_t i = 0; i < N; ++i) near("fixed::dft into a new container", r[i], fw[i], sc); auto q = so::fixed::idft<so::array<C<T>, N> >(f, l); for (std::size_t i = 0; i < N; ++i) near("fixed::idft into a new container", q[i], iw[i], sc); }
	if (windows) for (std::size_t a = 0; a <= N; ++a) for (std::size_t b = a; b <= N; ++b) { so::sub_array<so::array<C<T>, N> > v(d, (std::ptrdiff_t)a, (std::ptrdiff_t)b); std::size_t k = std::min(n, b - a); window<T>("fixed::dft into a window", so::get_internal(so::fixed::dft(f, l, v)), N, a, k, fw, sc); window<T>("fixed::idft into a window", so::get_internal(so::fixed::idft(f, l, v)), N, a, k, iw, sc); auto r = so::fit::dft(f, l, v); eq("fit::dft of a window: size", (std::size_t)r.size(), k); if (r.size() == k) for (std::size_t i = 0; i < k; ++i) near("fit::dft of a window", r.begin()[i], fw[i], sc); }
}
template<class T, class It> void with(It f, It l, Seq const& s, std::vector<Z> const& fw, std::vector<Z> const& iw, L sc, bool ra) {
	dests<T, 1>(f, l, s, fw, iw, sc, ra); dests<T, 3>(f, l, s, fw, iw, sc, ra); dests<T, 4>(f, l, s, fw, iw, sc, ra); dests<T, 6>(f, l, s, fw, iw, sc, ra && s.size() < 5); dests<T, 9>(f, l, s, fw, iw, sc, false);
	for (std::size_t i = 0; i < s.size(); ++i) { near("dft_element", so::dft_element(f, l, (std::ptrdiff_t)i), fw[i], sc); near("idft_element", so::idft_element(f, l, (std::ptrdiff_t)i), iw[i], sc); }
}
template<class T> struct Spec { static std::vector<Z> a(std::vector<C<T> > const& v) { std::vector<Z> r; for (auto& x : v) r.push_back(Z(hypotl(x.real(), x.imag()), 0)); return r; } static std::vector<Z> p(std::vector<C<T> > const& v) { std::vector<Z> r; for (auto& x : v) r.push_back(Z(atan2l(x.imag(), x.real()), 0)); return r; } };
template<class T, std::size_t N> so::array<T, N> rmarks() { so::array<T, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = (T)(100 + i); return a; }
template<class T, class A> void rwindow(char const* op, A const& r, std::size_t total, std::size_t lo, std::size_t len, std::vector<Z> const& w) { for (std::size_t i = 0; i < total; ++i) if (i >= lo && i < lo + len) nearr(op, r[i], w[i - lo].real(), std::fabs(w[i - lo].real()), 3); else eq(op, (L)r[i], (L)(100 + i)); }
template<class T, std::size_t N, class It> void spectra(It f, It l, std::vector<C<T> > const& v, bool ra) {
	std::vector<Z> a = Spec<T>::a(v), p = Spec<T>::p(v); so::array<T, N> d = rmarks<T, N>(); std::size_t n = v.size(), m = std::min(n, N);
	rwindow<T>("fixed::amplitude_spectrum", so::fixed::amplitude_spectrum(f, l, d), N, 0, m, a); rwindow<T>("fixed::phase_spectrum", so::fixed::phase_spectrum(f, l, d), N, 0, m, p); rwindow<T>("fixed::spectrum", so::fixed::spectrum(f, l, d), N, 0, m, a);
	{ auto r = so::fit::amplitude_spectrum(f, l, d); eq("fit::amplitude_spectrum size", (std::size_t)r.size(), m); rwindow<T>("fit::amplitude_spectrum", r, m, 0, m, a); auto q = so::fit::phase_spectrum(f, l, d); eq("fit::phase_spectrum size", (std::size_t)q.size(), m); rwindow<T>("fit::phase_spectrum", q, m, 0, m, p); }
	if (ra) for (std::size_t x = 0; x <= N; ++x) for (std::size_t y = x; y <= N; ++y) { so::sub_array<so::array<T, N> > w(d, (std::ptrdiff_t)x, (std::ptrdiff_t)y); std::size_t k = std::min(n, y - x); rwindow<T>("amplitude_spectrum into a window", so::get_internal(so::fixed::amplitude_spectrum(f, l, w)), N, x, k, a); rwindow<T>("phase_spectrum into a window", so::get_internal(so::fixed::phase_spectrum(f, l, w)), N, x, k, p); }
}
template<class T> void transform(Seq const& s) {
	std::vector<Z> fw = def(s, -1), iw = def(s, 1); L sc = weight(s); std::vector<C<T> > v = conv<T>(s); C<T>* b = v.data(); C<T>* e = b + v.size();
	with<T>((C<T> const*)b, (C<T> const*)e, s, fw, iw, sc, true);
	typedef It<C<T>, fwd> F; F ff(b, b, e), fl(e, b, e); with<T>(ff, fl, s, fw, iw, sc, false);
	// the transform and then its inverse give the samples back
	{ std::vector<C<T> > t; for (std::size_t i = 0; i < v.size(); ++i) t.push_back(so::dft_element(b, e, (std::ptrdiff_t)i)); for (std::size_t i = 0; i < v.size(); ++i) near("idft of dft", so::idft_element(t.data(), t.data() + t.size(), (std::ptrdiff_t)i), Z(s[i].first, s[i].second), sc); }
	if (!v.empty()) { auto it = so::make_dft_iterator((C<T> const*)b, (C<T> const*)e); auto en = so::make_dft_iterator((C<T> const*)b, (C<T> const*)e, (std::ptrdiff_t)v.size()); eq("dft_iterator distance", (std::size_t)(en - it), v.size()); std::size_t k = 0; for (; it != en; ++it, ++k) { near("dft_iterator", *it, fw[k], sc); near("dft_iterator []", it[-(std::ptrdiff_t)k], fw[0], sc); } eq("dft_iterator steps", k, v.size()); while (k--) { --it; near("dft_iterator --", *it, fw[k], sc); ok("dft_iterator <", it < en && !(en < it) && it <= en && en > it && en >= it); } near("dft_iterator + n", *(it + ((std::ptrdiff_t)v.size() - 1)), fw.back(), sc); near("dft_iterator - n", *(en - 1), fw.back(), sc);
		auto jt = so::make_idft_iterator((C<T> const*)b, (C<T> const*)e), jn = so::make_idft_iterator((C<T> const*)b, (C<T> const*)e, (std::ptrdiff_t)v.size()); for (k = 0; jt != jn; jt += 1, ++k) near("idft_iterator", *jt, iw[k], sc); eq("idft_iterator steps", k, v.size()); while (k--) { jt -= 1; near("idft_iterator -=", *jt, iw[k], sc); } ok("idft_iterator <", jt < jn && jn > jt && jt <= jn && jn >= jt); near("idft_iterator n +", *(((std::ptrdiff_t)v.size() - 1) + jt), iw.back(), sc); }
	// spectra of the samples themselves
	spectra<T, 3>((C<T> const*)b, (C<T> const*)e, v, true); spectra<T, 4>(ff, fl, v, false); std::vector<Z> a = Spec<T>::a(v), p = Spec<T>::p(v);
#if SPROUT_USE_CXX14_CONSTEXPR || __cplusplus >= 201402L
	std::vector<T> o(v.size() + 1, (T)55); T* r = so::amplitude_spectrum(b, e, o.data()); eq("amplitude_spectrum end", (std::size_t)(r - o.data()), v.size()); eq("amplitude_spectrum stays inside", (L)o.back(), (L)55); for (std::size_t i = 0; i < v.size(); ++i) nearr("amplitude_spectrum", o[i], a[i].real(), a[i].real(), 3); r = so::phase_spectrum(b, e, o.data()); eq("phase_spectrum end", (std::size_t)(r - o.data()), v.size()); eq("phase_spectrum stays inside", (L)o.back(), (L)55); for (std::size_t i = 0; i < v.size(); ++i) nearr("phase_spectrum", o[i], p[i].real(), std::fabs(p[i].real()), 3); so::spectrum(b, e, o.data()); for (std::size_t i = 0; i < v.size(); ++i) nearr("spectrum", o[i], a[i].real(), a[i].real(), 3);
#endif
	{ auto ai = so::make_amplitude_spectrum_iterator(b); auto pi = so::make_phase_spectrum_iterator(b); for (std::size_t i = 0; i < v.size(); ++i, ++ai, ++pi) { nearr("amplitude_spectrum_iterator", *ai, a[i].real(), a[i].real(), 3); nearr("phase_spectrum_iterator", *pi, p[i].real(), std::fabs(p[i].real()), 3); } }
	trace();
}
// every sequence over a small alphabet, and every impulse for longer ones
static int const RE[] = {0, 1, -1, 0, 2}; static int const IM[] = {0, 0, 0, 1, -3};
template<class F> void samples(int full, int longest, F f) {
	for (int n = 0; n <= full; ++n) sequences(n, n <= 3 ? 5 : n == 4 ? 4 : 3, [&](std::vector<int> const& x) { Seq s; for (int k : x) s.push_back({RE[k], IM[k]}); f(s); });
	for (int n = full + 1; n <= longest; ++n) for (int i = 0; i < n; ++i) for (int k = 1; k < 5; ++k) { Seq s(n, {0, 0}); s[i] = {RE[k], IM[k]}; f(s); Seq t = s; t[(i + 1) % n] = {3, 1}; t[(i * 2 + 3) % n].second -= 2; f(t); }
}
template<class T> void transforms(std::string const& n) { samples(thorough() ? 6 : 4, thorough() ? 17 : 9, [&](Seq const& s) { MC_STATE(n + " samples " + show(s)); transform<T>(s); }); }
MC_SECTION(dft_float) { transforms<float>("float"); } MC_SECTION(dft_double) { transforms<double>("double"); } MC_SECTION(dft_long_double) { transforms<long double>("long double"); }
// fast transform of fixed sizes
template<class T, std::size_t N> void fast(std::string const& tn, Seq const& s) {
	MC_STATE(tn + " size " + str(N) + " samples " + show(s)); Seq pad = s; pad.resize(N, {0, 0}); std::vector<Z> fw = def(pad, -1), iw = def(pad, 1); L sc = weight(pad); std::vector<C<T> > v = conv<T>(s); so::array<C<T>, N> d = marks<T, N>(), in; for (std::size_t i = 0; i < N; ++i) in[i] = C<T>((T)pad[i].first, (T)pad[i].second);
	C<T> const* b = v.data(); C<T> const* e = b + v.size(); auto A = [&](char const* op, so::array<C<T>, N> const& r, std::vector<Z> const& w) { for (std::size_t i = 0; i < N; ++i) near(op, r[i], w[i], sc); };
	A("fixed::fft range", so::fixed::fft(b, e, d), fw); A("fixed::ifft range", so::fixed::ifft(b, e, d), iw); if (s.size() == N) { A("fixed::fft", so::fixed::fft(in, d), fw); A("fixed::fft into a new container", so::fixed::fft<so::array<C<T>, N> >(in), fw); A("fixed::ifft into a new container", so::fixed::ifft<so::array<C<T>, N> >(b, e), iw); A("ifft of fft", so::fixed::ifft(so::fixed::fft(in, d).begin(), so::fixed::fft(in, d).begin() + 0, d), std::vector<Z>(N)); auto t = so::fixed::fft(in, d); std::vector<Z> back; for (auto& q : s) back.push_back(Z(q.first, q.second)); A("ifft of fft", so::fixed::ifft(t.begin(), t.end(), d), back); }
	{ auto r = so::fit::fft(b, e, d); eq("fit::fft size", (std::size_t)r.size(), s.size()); auto q = so::fit::ifft(b, e, d); eq("fit::ifft size", (std::size_t)q.size(), s.size()); for (std::size_t i = 0; i < s.size(); ++i) { near("fit::fft", r[i], fw[i], sc); near("fit::ifft", q[i], iw[i], sc); } }
#if __cplusplus >= 201402L
	if (s.size() == N) { so::array<C<T>, N> t = in; so::fft(t.begin(), t.end()); A("fft in place", t, fw); so::ifft(t.begin(), t.end()); std::vector<Z> back; for (auto& q : s) back.push_back(Z(q.first, q.second)); A("ifft in place undoes fft", t, back); t = in; so::ifft(t.begin(), t.end()); A("ifft in place", t, iw); std::vector<C<T> > u = v; typedef It<C<T>, ra> R; so::fft(R(u.data(), u.data(), u.data() + N), R(u.data() + N, u.data(), u.data() + N)); for (std::size_t i = 0; i < N; ++i) near("fft over checked iterators", u[i], fw[i], sc); }
#endif
	trace();
}
template<class T, std::size_t N> void sizes(std::string const& tn) {
	int const n = (int)N; if (n <= 4) { for (int m = 0; m <= n; ++m) sequences(m, 5, [&](std::vector<int> const& x) { Seq s; for (int k : x) s.push_back({RE[k], IM[k]}); fast<T, N>(tn, s); }); return; } if (n == 8) sequences(8, thorough() ? 3 : 2, [&](std::vector<int> const& x) { Seq s; for (int k : x) s.push_back({RE[k], IM[k]}); fast<T, N>(tn, s); });
	for (int m = n; m >= (n > 16 ? n - 2 : 1); --m) for (int i = 0; i < m; ++i) for (int k = 1; k < 5; ++k) { if (n > 16 && k != 1 && k != 4) continue; Seq s(m, {0, 0}); s[i] = {RE[k], IM[k]}; fast<T, N>(tn, s); s[(i * 3 + 1) % m] = {2, -1}; s[(i * 5 + 2) % m].first += 3; fast<T, N>(tn, s); }
}
template<class T> void ffts(std::string const& n) { sizes<T, 1>(n); sizes<T, 2>(n); sizes<T, 4>(n); sizes<T, 8>(n); sizes<T, 16>(n); sizes<T, 32>(n); sizes<T, 64>(n); if (thorough()) sizes<T, 128>(n); }
MC_SECTION(fft_float) { ffts<float>("float"); } MC_SECTION(fft_double) { ffts<double>("double"); } MC_SECTION(fft_long_double) { ffts<long double>("long double"); }
// bit reversal tables
static int rev(int v, int bits) { int r = 0; for (int i = 0; i < bits; ++i) if (v >> i & 1) r |= 1 << (bits - 1 - i); return r; }
template<std::size_t N> void table() { MC_STATE("bitrev_table of size " + str(N)); int bits = 0; while ((std::size_t)1 << bits < N) ++bits; so::array<int, N> d; for (std::size_t i = 0; i < N; ++i) d[i] = 900 + (int)i; auto r = so::fixed::bitrev_table(d); for (std::size_t i = 0; i < N; ++i) eq("bitrev_table", r[i], rev((int)i, bits)); auto q = so::fit::bitrev_table(d); eq("fit::bitrev_table size", (std::size_t)q.size(), N); for (std::size_t i = 0; i < N; ++i) eq("fit::bitrev_table", q[i], rev((int)i, bits)); trace();
	if (N <= 9) for (std::size_t a = 0; a <= N; ++a) for (std::size_t b = a; b <= N; ++b) { MC_STATE("bitrev_table of size " + str(N) + " window " + str(a) + "," + str(b)); so::sub_array<so::array<int, N> > w(d, (std::ptrdiff_t)a, (std::ptrdiff_t)b); int k = 0; while ((std::size_t)1 << k < b - a) ++k; auto x = so::get_internal(so::fixed::bitrev_table(w)); for (std::size_t i = 0; i < N; ++i) eq("bitrev_table of a window", x[i], i >= a && i < b ? rev((int)(i - a), k) : d[i]); trace(); } }
MC_SECTION(bitrev) { table<1>(); table<2>(); table<3>(); table<4>(); table<5>(); table<7>(); table<8>(); table<9>(); table<16>(); table<32>(); table<64>(); }
// waves
static L saw(L t) { return 2 * (t - std::floor(t + 0.5L)); }
static L tri(L t) { L u = t - std::floor(t); return u < 0.25L ? 4 * u : u < 0.75L ? 2 - 4 * u : 4 * u - 4; }
template<class T> struct Wave { L f, a, p, d; L sine(L i, L n) const { return a * sinl(2 * PI * f * i / n + p); } L sine(L i) const { return a * sinl(2 * PI * f * i + p); } L sawt(L i) const { return a * saw(f * i + p); } L tria(L i) const { return a * tri(f * i + p); } L squa(L i) const { L t = f * i + p; return a * (saw(t) - saw(t - d)); } };
// the portable asin loses half its digits at its ends: triangle waves are judged with the compiler's functions only
#ifdef SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
static bool unjudged(char const* op) { return std::strstr(op, "triangle") != 0; }
#else
static bool unjudged(char const*) { return false; }
#endif
template<class T, std::size_t N, class F> void fill(char const* op, so::array<T, N> const& r, std::size_t lo, std::size_t hi, F f, L ulps) { if (unjudged(op)) return; for (std::size_t i = 0; i < N; ++i) if (i >= lo && i < hi) { L w = f((L)(i - lo)); okd(op, std::fabs((L)r[i] - w) <= ulps * (L)std::numeric_limits<T>::epsilon(), [&] { return "at " + str(i) + " got " + sh(r[i]) + ", want " + sh((double)w); }); } else eq(op, (L)r[i], (L)(100 + i)); }
template<class T, std::size_t N> void waves(Wave<T> const& w) {
	T f = (T)w.f, a = (T)w.a, p = (T)w.p, d = (T)w.d; so::array<T, N> m = rmarks<T, N>(); L A = std::fabs(w.a) * 256; auto si = [&](L i) { return w.sine(i, (L)N); }; auto s1 = [&](L i) { return w.sine(i); }; auto sa = [&](L i) { return w.sawt(i); }; auto tr = [&](L i) { return w.tria(i); }; auto sq = [&](L i) { return w.squa(i); };
	fill("fixed::sinusoid", so::fixed::sinusoid(m, f, a, p), 0, N, si, A); fill("fixed::sawtooth", so::fixed::sawtooth(m, f, a, p), 0, N, sa, A); fill("fixed::triangle", so::fixed::triangle(m, f, a, p), 0, N, tr, A); fill("fixed::square", so::fixed::square(m, f, a, p, d), 0, N, sq, A);
	fill("fixed::sinusoid into a new container", so::fixed::sinusoid<so::array<T, N> >(f, a, p), 0, N, si, A); fill("fixed::sawtooth into a new container", so::fixed::sawtooth<so::array<T, N> >(f, a, p), 0, N, sa, A); fill("fixed::triangle into a new container", so::fixed::triangle<so::array<T, N> >(f, a, p), 0, N, tr, A); fill("fixed::square into a new container", so::fixed::square<so::array<T, N> >(f, a, p, d), 0, N, sq, A);
	for (std::size_t x = 0; x <= N; ++x) for (std::size_t y = x; y <= N; ++y) { so::sub_array<so::array<T, N> > v(m, (std::ptrdiff_t)x, (std::ptrdiff_t)y); L n = (L)(y - x); auto sv = [&](L i) { return w.sine(i, n); }; fill("sinusoid into a window", so::get_internal(so::fixed::sinusoid(v, f, a, p)), x, y, sv, A); fill("sawtooth into a window", so::get_internal(so::fixed::sawtooth(v, f, a, p)), x, y, sa, A); fill("triangle into a window", so::get_internal(so::fixed::triangle(v, f, a, p)), x, y, tr, A); fill("square into a window", so::get_internal(so::fixed::square(v, f, a, p, d)), x, y, sq, A); auto r = so::fit::square(v, f, a, p, d); eq("fit::square size", (std::size_t)r.size(), (std::size_t)(y - x)); auto q = so::fit::sinusoid(v, f, a, p); eq("fit::sinusoid size", (std::size_t)q.size(), (std::size_t)(y - x)); for (std::size_t i = 0; i < q.size() && i < y - x; ++i) okd("fit::sinusoid", std::fabs((L)q[i] - sv((L)i)) <= A * (L)std::numeric_limits<T>::epsilon(), [&] { return sh(q[i]); }); auto u = so::fit::triangle(v, f, a, p); auto o = so::fit::sawtooth(v, f, a, p); eq("fit::triangle size", (std::size_t)u.size(), (std::size_t)(y - x)); eq("fit::sawtooth size", (std::size_t)o.size(), (std::size_t)(y - x)); for (std::size_t i = 0; i < u.size() && i < o.size() && i < r.size(); ++i) { okd("fit::triangle", unjudged("triangle") || std::fabs((L)u[i] - tr((L)i)) <= A * (L)std::numeric_limits<T>::epsilon(), [&] { return sh(u[i]); }); okd("fit::sawtooth", std::fabs((L)o[i] - sa((L)i)) <= A * (L)std::numeric_limits<T>::epsilon(), [&] { return sh(o[i]); }); okd("fit::square", std::fabs((L)r[i] - sq((L)i)) <= A * (L)std::numeric_limits<T>::epsilon(), [&] { return sh(r[i]); }); } }
#if __cplusplus >= 201402L
	so::array<T, N> b = m; so::sinusoid(b.begin(), b.end(), f, a, p); fill("sinusoid", b, 0, N, si, A); so::sawtooth(b.begin(), b.end(), f, a, p); fill("sawtooth", b, 0, N, sa, A); so::triangle(b.begin(), b.end(), f, a, p); fill("triangle", b, 0, N, tr, A); so::square(b.begin(), b.end(), f, a, p, d); fill("square", b, 0, N, sq, A); if (d == (T)0.5) { so::square(b.begin(), b.end(), f, a, p); fill("square of default duty", b, 0, N, sq, A); }
	if (N > 2) { b = m; so::sinusoid(b.begin() + 1, b.end() - 1, f, a, p); L n = (L)(N - 2); fill("sinusoid of part", b, 1, N - 1, [&](L i) { return w.sine(i, n); }, A); b = m; so::square(b.begin() + 1, b.end() - 1, f, a, p, d); fill("square of part", b, 1, N - 1, sq, A); }
#endif
	auto iter = [&](char const* op, L got, L want) { if (unjudged(op)) return; okd(op, std::fabs(got - want) <= A * (L)std::numeric_limits<T>::epsilon(), [&] { return "got " + sh((double)got) + ", want " + sh((double)want); }); };
	so::sinusoid_iterator<T> i1(0, f, a, p); so::sawtooth_iterator<T> i2(0, f, a, p); so::triangle_iterator<T> i3(0, f, a, p); so::square_iterator<T> i4(0, f, a, p, d), e4((std::ptrdiff_t)N, f, a, p, d); eq("square_iterator distance", (std::ptrdiff_t)(e4 - i4), (std::ptrdiff_t)N);
	for (std::ptrdiff_t k = 0; k < (std::ptrdiff_t)N; ++k, ++i1, i2++, i3 += 1, i4 = so::next(i4)) { iter("sinusoid_iterator", *i1, s1(k)); iter("sawtooth_iterator", *i2, sa(k)); iter("triangle_iterator", *i3, tr(k)); iter("square_iterator", *i4, sq(k)); iter("sinusoid_iterator []", i1[-k], s1(0)); iter("sawtooth_iterator []", i2[1], sa(k + 1)); iter("triangle_iterator []", i3[-1], tr(k - 1)); iter("square_iterator []", i4[2], sq(k + 2)); eq("index", i1.index(), k); ok("square_iterator <", i4 < e4 && !(i4 >= e4) && i4 != e4 && !(e4 <= i4) && e4 > i4); iter("converted sinusoid_iterator", *so::sinusoid_iterator<long double>(i1), s1(k)); iter("converted sawtooth_iterator", *so::sawtooth_iterator<long double>(i2), sa(k)); iter("converted triangle_iterator", *so::triangle_iterator<long double>(i3), tr(k)); iter("converted square_iterator", *so::square_iterator<long double>(i4), sq(k)); }
	ok("square_iterator reaches the end", i4 == e4); for (std::ptrdiff_t k = (std::ptrdiff_t)N; k-- > 0;) { --i1; i2--; i3 -= 1; i4 = so::prev(i4); iter("sinusoid_iterator --", *i1, s1(k)); iter("sawtooth_iterator --", *i2, sa(k)); iter("triangle_iterator -=", *i3, tr(k)); iter("square_iterator prev", *i4, sq(k)); iter("sinusoid_iterator + n", *(2 + i1), s1(k + 2)); iter("square_iterator - n", *(i4 - 3), sq(k - 3)); }
	trace();
}
template<class T> void allwaves(std::string const& n) { L fs[] = {0, 0.125L, 0.25L, 0.375L, 0.5L, 1, 1.25L, 3, -0.125L}, as[] = {0, 1, 2.5L, -3}, ps[] = {0, 0.125L, 0.25L, 0.5L, 0.75L, 1, -0.375L, 2}, ds[] = {0.5L, 0.125L, 0.25L, 0.75L}; for (L f : fs) for (L a : as) for (L p : ps) for (L d : ds) { MC_STATE(n + " frequency " + sh((double)f) + " amplitude " + sh((double)a) + " phase " + sh((double)p) + " duty " + sh((double)d)); Wave<T> w{f, a, p, d}; waves<T, 5>(w); if (d == 0.5L) { waves<T, 1>(w); waves<T, 8>(w); } if (thorough()) waves<T, 12>(w); } 
	{ MC_STATE(n + " defaults"); so::array<T, 4> m = rmarks<T, 4>(); Wave<T> w{1, 1, 0, 0.5L}; fill("sinusoid of defaults", so::fixed::sinusoid(m), 0, 4, [&](L i) { return w.sine(i, 4); }, 256); fill("sawtooth of defaults", so::fixed::sawtooth(m), 0, 4, [&](L i) { return w.sawt(i); }, 256); fill("triangle of defaults", so::fixed::triangle(m), 0, 4, [&](L i) { return w.tria(i); }, 256); fill("square of defaults", so::fixed::square(m), 0, 4, [&](L i) { return w.squa(i); }, 256); trace(); } }
MC_SECTION(waves_float) { allwaves<float>("float"); } MC_SECTION(waves_double) { allwaves<double>("double"); } MC_SECTION(waves_long_double) { allwaves<long double>("long double"); }
