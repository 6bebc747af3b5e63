// V02: variant holds exactly one alternative and dispatches to it
#define SPROUT_ENABLE_ASSERT_HANDLER
#include <iostream>
#include <sprout/assert.hpp>
struct Failed {};
namespace sprout { void assertion_failed(sprout::assertion_info const&) { throw Failed(); } void assertion_failed_msg(sprout::assertion_info_msg const&) { throw Failed(); } }
#include "mc.hpp"
#include <sprout/variant.hpp>
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/functions.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
#include <functional>
using namespace mc;
namespace so = sprout;
struct Cls { static long& live() { static long n = 0; return n; } int v; Cls() : v(0) { ++live(); } explicit Cls(int a) : v(a) { ++live(); } Cls(Cls const& o) : v(o.v) { ++live(); } Cls(Cls&& o) : v(o.v) { ++live(); } Cls& operator=(Cls const& o) { v = o.v; return *this; } ~Cls() { --live(); } };
inline bool operator==(Cls const& a, Cls const& b) { return a.v == b.v; } inline bool operator<(Cls const& a, Cls const& b) { return a.v < b.v; } inline std::ostream& operator<<(std::ostream& o, Cls const& c) { return o << 'C' << c.v; } inline std::size_t hash_value(Cls const& c) { return (std::size_t)c.v * 31 + 7; }
template<class T> struct E; template<> struct E<int> { static int mk(int i) { return i; } static int rd(int i) { return i; } }; template<> struct E<Cls> { static Cls mk(int i) { return Cls(i); } static int rd(Cls const& c) { return c.v; } }; template<> struct E<char> { static char mk(int i) { return (char)('a' + i); } static int rd(char c) { return c - 'a'; } }; template<> struct E<double> { static double mk(int i) { return i; } static int rd(double c) { return (int)c; } };
template<> struct E<std::string> { static std::string mk(int i) { return std::string(i, 'x'); } static int rd(std::string const& s) { return (int)s.size(); } };
// a visitor that records which type it was given, how, and the value
struct Rec : so::static_visitor<int> { template<class T> int code(T const& t, int k) const { return k * 100 + E<T>::rd(t); } int operator()(int const& x) const { return code(x, 0); } int operator()(Cls const& x) const { return code(x, 1); } int operator()(std::string const& x) const { return code(x, 2); } int operator()(char const& x) const { return code(x, 3); } int operator()(double const& x) const { return code(x, 4); } };
template<class T> struct Code; template<> struct Code<int> { enum { v = 0 }; }; template<> struct Code<Cls> { enum { v = 1 }; }; template<> struct Code<std::string> { enum { v = 2 }; }; template<> struct Code<char> { enum { v = 3 }; }; template<> struct Code<double> { enum { v = 4 }; };
struct Which { typedef int result_type; template<class T> int operator()(T const&) const { return Code<T>::v; } };
struct Calls { mutable int n; Calls() : n(0) {} typedef int result_type; template<class T> int operator()(T const& t) const { ++n; return E<T>::rd(t) + 1; } };
struct Plain { template<class T> long operator()(T const& t) const { return 10 * E<T>::rd(t) + Code<T>::v; } }; // no result_type: the common type of the results
struct Mut : so::static_visitor<> { int to; Mut(int t) : to(t) {} template<class T> void operator()(T& t) const { t = E<T>::mk(to); } };
struct Same : so::static_variant_visitor { template<class T> T operator()(T const& t) const { return E<T>::mk(E<T>::rd(t) + 1); } };
struct SameP { template<class T> T operator()(T const& t) const { return E<T>::mk(E<T>::rd(t) + 2); } };
struct NonConst { int n; NonConst() : n(0) {} typedef int result_type; template<class T> int operator()(T const& t) { n += 1 + E<T>::rd(t); return n; } };
struct M { int w, v; M() : w(0), v(-1) {} M(int a, int b) : w(a), v(b) {} };
template<class V, class T> struct First; template<class T, class... R> struct First<so::variant<T, R...>, T> { enum { v = 0 }; }; template<class A, class T, class... R> struct First<so::variant<A, R...>, T> { enum { v = 1 + First<so::variant<R...>, T>::v }; };
template<class F> bool fails(F const& f) { try { f(); } catch (Failed const&) { return true; } return false; }
template<class V, class... Ts> struct H {
	static int const N = sizeof...(Ts); struct S { V a, b; M x, y; };
	template<int I> struct at { typedef typename std::tuple_element<I, std::tuple<Ts...> >::type type; };
	static int dflt(int w) { static int const d[] = {E<Ts>::rd(Ts())...}; return d[w]; } static int code(int w) { static int const d[] = {Code<Ts>::v...}; return d[w]; }
	template<int I> static typename std::enable_if<I == N>::type each(V const&, M const&) {}
	template<int I> static typename std::enable_if<I != N>::type each(V const& c, M const& m) {
		typedef typename at<I>::type T; V& a = const_cast<V&>(c); int got = -9; int first = First<V, T>::v;
		eq("get_at fails", fails([&]() { got = E<T>::rd(c.template get_at<I>()); }), m.w != I); if (m.w == I) eq("get_at", got, m.v); eq("get_at mutable fails", fails([&]() { got = E<T>::rd(a.template get_at<I>()); }), m.w != I); if (m.w == I) eq("get_at mutable", got, m.v);
		if (m.w == I) { eq("tuple get", E<T>::rd(so::tuples::get<I>(c)), m.v); eq("tuple get mutable", E<T>::rd(so::tuples::get<I>(a)), m.v); V t(c); eq("tuple get rvalue", E<T>::rd(so::tuples::get<I>(std::move(t))), m.v); eq("get_at is one object", &c.template get_at<I>() == &a.template get_at<I>() && &so::tuples::get<I>(c) == &c.template get_at<I>(), true); }
		eq("get<T> fails", fails([&]() { got = E<T>::rd(c.template get<T>()); }), m.w != first); if (m.w == first) eq("get<T>", got, m.v); eq("get<T> mutable fails", fails([&]() { got = E<T>::rd(a.template get<T>()); }), m.w != first); if (m.w == first) eq("get<T> mutable", got, m.v); eq("get<T>(v) fails", fails([&]() { got = E<T>::rd(so::get<T>(c)); }), m.w != first); if (m.w == first) eq("get<T>(v)", got, m.v); eq("get<T>(v) mutable fails", fails([&]() { got = E<T>::rd(so::get<T>(a)); }), m.w != first); if (m.w == first) eq("get<T>(v) mutable", got, m.v);
		each<I + 1>(c, m);
	}
	static void observe(V const& c, M const& m) {
		V& a = const_cast<V&>(c); eq("which", c.which(), m.w); eq("empty", c.empty(), false); each<0>(c, m);
		Rec r; eq("apply_visitor", so::apply_visitor(r, c), code(m.w) * 100 + m.v); eq("apply_visitor mutable", so::apply_visitor(Rec(), a), code(m.w) * 100 + m.v); eq("member apply_visitor", c.apply_visitor(r), code(m.w) * 100 + m.v); eq("member apply_visitor mutable", a.apply_visitor(Rec()), code(m.w) * 100 + m.v);
		Calls k; eq("visitor result", so::apply_visitor(k, c), m.v + 1); eq("visitor is called once", k.n, 1); eq("as_visitor", so::apply_visitor(so::as_visitor(k), c), m.v + 1); eq("as_visitor calls once", k.n, 2); eq("as_visitor<R>", so::apply_visitor(so::as_visitor<long>(k), c), (long)m.v + 1); eq("common result", so::apply_visitor(Plain(), c), 10l * m.v + code(m.w)); eq("as_visitor common result", so::apply_visitor(so::as_visitor<long>(Plain()), c), 10l * m.v + code(m.w));
		NonConst nc; nc.n = 5; eq("stateful visitor", so::apply_visitor(nc, c), 6 + m.v); eq("stateful visitor is the one given", nc.n, 6 + m.v); eq("stateful as_visitor", so::apply_visitor(so::as_visitor(nc), a), 7 + 2 * m.v);
		std::ostringstream o; o << c; std::ostringstream w; print(w, m, std::integral_constant<int, 0>()); eq("operator<<", o.str(), w.str());
		auto n = so::apply_visitor(Same(), c); eq("static_variant_visitor which", code_of(n), code(m.w)); eq("static_variant_visitor value", so::apply_visitor(Calls(), n), m.v + 2); SameP sp; auto p = so::apply_visitor(so::as_variant_visitor(sp), c); eq("as_variant_visitor which", code_of(p), code(m.w)); eq("as_variant_visitor value", so::apply_visitor(Calls(), p), m.v + 3);
	}
	template<class W> static int code_of(W const& w) { return so::apply_visitor(Which(), w); }
	template<int I> static void print(std::ostream& o, M const& m, std::integral_constant<int, I>) { if (m.w == I) o << E<typename at<I>::type>::mk(m.v); else print(o, m, std::integral_constant<int, I + 1>()); } static void print(std::ostream&, M const&, std::integral_constant<int, N>) {}
	static void relations(V const& a, M const& x, V const& b, M const& y) { bool e = x.w == y.w && x.v == y.v, l = x.w < y.w || (x.w == y.w && x.v < y.v), g = y.w < x.w || (x.w == y.w && y.v < x.v); eq("==", a == b, e); eq("!=", a != b, !e); eq("<", a < b, l); eq(">", a > b, g); eq("<=", a <= b, !g); eq(">=", a >= b, !l); hashes(a, b, e, std::integral_constant<bool, true>()); }
	template<class W> static void hashes(W const& a, W const& b, bool e, std::true_type) { if (e) eq("equal values hash equally", hash_value(a), hash_value(b)); eq("sprout hash", so::hash<V>()(a), hash_value(a)); eq("std hash", std::hash<V>()(a), hash_value(a)); }
	typedef std::function<bool(V&, M&, V&, M&)> F; std::vector<Op<S> > ops;
	void op(std::string const& n, F f) { ops.push_back({n + " a", [f](S& s) { return f(s.a, s.x, s.b, s.y); }}); ops.push_back({n + " b", [f](S& s) { return f(s.b, s.y, s.a, s.x); }}); }
	template<int I> typename std::enable_if<I == N>::type stores() {}
	template<int I> typename std::enable_if<I != N>::type stores() {
		typedef typename at<I>::type T; int const first = First<V, T>::v; for (int i = 0; i < 3; ++i) { std::string n = " alternative " + str(I) + " value " + str(i);
			op("= value" + n, [i, first](V& a, M& x, V&, M&) { a = E<T>::mk(i); x = M(first, i); return true; }); op("= lvalue" + n, [i, first](V& a, M& x, V&, M&) { T t = E<T>::mk(i); a = t; x = M(first, i); eq("the source keeps its value", E<T>::rd(t), i); return true; }); op("= const" + n, [i, first](V& a, M& x, V&, M&) { T const t = E<T>::mk(i); a = t; x = M(first, i); return true; }); op("= V(value)" + n, [i, first](V& a, M& x, V&, M&) { a = V(E<T>::mk(i)); x = M(first, i); return true; }); op("V(lvalue)" + n, [i, first](V& a, M& x, V&, M&) { T t = E<T>::mk(i); V v(t); a = v; x = M(first, i); return true; });
			op("get_at =" + n, [i](V& a, M& x, V&, M&) { if (x.w != I) return false; a.template get_at<I>() = E<T>::mk(i); x.v = i; return true; }); op("get =" + n, [i, first](V& a, M& x, V&, M&) { if (x.w != first) return false; so::get<T>(a) = E<T>::mk(i); x.v = i; return true; }); }
		stores<I + 1>();
	}
	void run() {
		M d(0, dflt(0)); op("= V()", [d](V& a, M& x, V&, M&) { a = V(); x = d; return true; }); op("= other", [](V& a, M& x, V& b, M& y) { V const& r = b; a = r; x = y; return true; }); op("= other mutable", [](V& a, M& x, V& b, M& y) { a = b; x = y; return true; }); op("= itself", [](V& a, M&, V&, M&) { V const& r = a; a = r; return true; }); op("= move", [](V& a, M& x, V& b, M& y) { V t((V const&)b); a = std::move(t); x = y; return true; }); op("= copy of mutable", [](V& a, M& x, V& b, M& y) { V t(b); a = std::move(t); x = y; return true; });
		op("swap", [](V& a, M& x, V& b, M& y) { a.swap(b); std::swap(x, y); return true; }); op("swap(a, b)", [](V& a, M& x, V& b, M& y) { so::swap(a, b); std::swap(x, y); return true; }); op("swap itself", [](V& a, M&, V&, M&) { a.swap(a); return true; }); for (int i = 0; i < 3; ++i) op("visitor writes " + str(i), [i](V& a, M& x, V&, M&) { Mut m(i); so::apply_visitor(m, a); x.v = i; return true; });
		stores<0>(); S init; init.x = init.y = d; bfs(init, ops, [](S const& s) { observe(s.a, s.x); observe(s.b, s.y); relations(s.a, s.x, s.b, s.y); relations(s.a, s.x, s.a, s.x); V c(s.a); observe(c, s.x); V e(std::move(c)); observe(e, s.x); return str(s.x.w) + str(s.x.v) + "/" + str(s.y.w) + str(s.y.v); }, 100, 20000);
	}
};
template<class... T> void go() { long base = Cls::live(); { H<so::variant<T...>, T...> h; h.run(); } eq("no object is lost or destroyed twice", Cls::live(), base); }
MC_SECTION(v02_1) { bound("histories", "pairs of variants over 1-5 alternatives (with repeats), three values each: breadth-first over every operation to closure"); go<int>(); go<Cls>(); go<char, int>(); }
MC_SECTION(v02_3) { go<int, Cls, std::string>(); }
MC_SECTION(v02_3r) { go<std::string, int, char>(); go<Cls, double, Cls>(); go<int, int>(); }
MC_SECTION(v02_5) { go<char, std::string, int, Cls, double>(); }
MC_SECTION(v02_constant) {
	typedef so::variant<int, double, char> V; constexpr V a(3), b('x'), c(2.5); static_assert(a.which() == 0 && b.which() == 2 && c.which() == 1 && a.get<int>() == 3 && so::get<char>(b) == 'x' && c.get_at<1>() == 2.5 && a < c && c < b && a != b && a == V(3), ""); constexpr V d(c); static_assert(d == c && so::is_variant<V>::value && !so::is_variant<int>::value && so::is_variant<V const>::value && std::tuple_size<V>::value == 3 && std::is_same<std::tuple_element<1, V>::type, double>::value, ""); ok("constant", true);
}
