// V01: optional holds a value or nothing, through any history
#include "mc.hpp"
#include <sprout/optional.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
#include <functional>
using namespace mc;
namespace so = sprout;
// a class value that counts its live objects and knows whether it was moved from
struct Cls { static long& live() { static long n = 0; return n; } int v; Cls() : v(-1) { ++live(); } Cls(int a) : v(a) { ++live(); } Cls(int a, int b) : v(a * 10 + b) { ++live(); } Cls(Cls const& o) : v(o.v) { ++live(); } Cls(Cls&& o) : v(o.v) { o.v = -99; ++live(); } Cls& operator=(Cls const& o) { v = o.v; return *this; } Cls& operator=(Cls&& o) { int t = o.v; o.v = -99; v = t; return *this; } ~Cls() { --live(); } };
inline bool operator==(Cls const& a, Cls const& b) { return a.v == b.v; } inline bool operator<(Cls const& a, Cls const& b) { return a.v < b.v; }
inline std::ostream& operator<<(std::ostream& o, Cls const& c) { return o << c.v; } inline std::istream& operator>>(std::istream& i, Cls& c) { return i >> c.v; }
inline std::size_t hash_value(Cls const& c) { return (std::size_t)c.v * 31 + 7; }
// a class whose only constructor takes two arguments is not default constructible; optional<T> needs a default, so give it one that is visible
struct Agg { int v, w; Agg() : v(-7), w(-8) {} Agg(int a, int b) : v(a), w(b) {} Agg(std::initializer_list<int> l) : v(0), w((int)l.size()) { for (int x : l) v = v * 10 + x; } };
template<class T> struct E; 
template<> struct E<int> { static int mk(int i) { return i; } static int rd(int i) { return i; } static char const* name() { return "int"; } };
template<> struct E<Cls> { static Cls mk(int i) { return Cls(i); } static int rd(Cls const& c) { return c.v; } static char const* name() { return "class"; } };
template<> struct E<std::string> { static std::string mk(int i) { return std::string(i + 1, 'a' + i); } static int rd(std::string const& s) { return s.empty() ? -1 : s[0] - 'a'; } static char const* name() { return "string"; } };
struct M { bool h; int v; M() : h(false), v(0) {} M(int x) : h(true), v(x) {} std::string s() const { return h ? str(v) : "-"; } };
inline bool operator==(M const& a, M const& b) { return a.h == b.h && (!a.h || a.v == b.v); }
inline bool lt(M const& a, M const& b) { return b.h && (!a.h || a.v < b.v); }
template<class F> bool throws(F const& f, int& kind) { kind = 0; try { f(); } catch (so::bad_optional_access const&) { kind = 1; return true; } catch (std::out_of_range const&) { kind = 2; return true; } catch (...) { kind = 3; return true; } return false; }
template<class T> void observe(so::optional<T> const& c, M const& m) {
	typedef so::optional<T> O; O& a = const_cast<O&>(c); typedef E<T> e;
	eq("is_initialized", c.is_initialized(), m.h); eq("operator bool", (bool)c, m.h); eq("operator!", !c, !m.h); eq("empty", c.empty(), !m.h); eq("size", c.size(), (std::size_t)(m.h ? 1 : 0));
	eq("get_pointer null", c.get_pointer() == 0, !m.h); eq("get_pointer null mutable", a.get_pointer() == 0, !m.h); eq("get_ptr null", c.get_ptr() == 0, !m.h);
	int k; bool t;
	int got = -5;
	t = throws([&]() { got = e::rd(c.value()); }, k); eq("value throws", t ? k : 0, m.h ? 0 : 1); if (m.h) eq("value", got, m.v);
	t = throws([&]() { got = e::rd(a.value()); }, k); eq("value mutable throws", t ? k : 0, m.h ? 0 : 1); if (m.h) eq("value mutable", got, m.v);
	t = throws([&]() { got = e::rd(c.get()); }, k); eq("get throws", t ? k : 0, m.h ? 0 : 1); if (m.h) eq("get", got, m.v);
	t = throws([&]() { got = e::rd(a.get()); }, k); eq("get mutable throws", t ? k : 0, m.h ? 0 : 1); if (m.h) eq("get mutable", got, m.v);
	for (std::size_t i = 0; i < 3; ++i) { t = throws([&]() { got = e::rd(c.at(i)); }, k); eq("at throws", t ? k : 0, m.h && i == 0 ? 0 : 2); if (!t) eq("at", got, m.v); t = throws([&]() { got = e::rd(a.at(i)); }, k); eq("at mutable throws", t ? k : 0, m.h && i == 0 ? 0 : 2); t = throws([&]() { c.rangecheck(i); }, k); eq("rangecheck", t ? k : 0, m.h && i == 0 ? 0 : 2); }
	{ T const d = e::mk(9); T dm = e::mk(8); eq("value_or", e::rd(c.value_or(d)), m.h ? m.v : 9); eq("value_or mutable", e::rd(a.value_or(dm)), m.h ? m.v : 8); eq("get_value_or", e::rd(c.get_value_or(d)), m.h ? m.v : 9); eq("get_value_or mutable", e::rd(a.get_value_or(dm)), m.h ? m.v : 8);
		eq("get_value_or(x, v)", e::rd(so::get_value_or(c, d)), m.h ? m.v : 9); eq("get_value_or(x, v) mutable", e::rd(so::get_value_or(a, dm)), m.h ? m.v : 8); eq("value_or is the default object", &c.value_or(d) == &d, !m.h); eq("value_or is the default object (mutable)", &a.value_or(dm) == &dm, !m.h);
		O tmp(c); T r(so::get_value_or(std::move(tmp), std::move(dm))); eq("get_value_or rvalue", e::rd(r), m.h ? m.v : 8); }
	eq("pointer get null", so::get(&c) == 0, !m.h); eq("pointer get null mutable", so::get(&a) == 0, !m.h); eq("get_pointer(x) null", so::get_pointer(c) == 0, !m.h); eq("get_pointer(x) null mutable", so::get_pointer(a) == 0, !m.h);
	int n = 0; for (T const& x : c) { ++n; eq("iterate", e::rd(x), m.v); } eq("iterate count", n, m.h ? 1 : 0); n = 0; for (T& x : a) { ++n; eq("iterate mutable", e::rd(x), m.v); } eq("iterate mutable count", n, m.h ? 1 : 0);
	eq("distance", (long)(c.end() - c.begin()), m.h ? 1l : 0l); eq("distance c", (long)(c.cend() - c.cbegin()), m.h ? 1l : 0l); eq("begin == end", c.begin() == c.end(), !m.h); eq("begin == end mutable", a.begin() == a.end(), !m.h);
	n = 0; for (auto i = c.rbegin(); i != c.rend() && n < 3; ++i) { ++n; eq("reverse", e::rd(*i), m.v); } eq("reverse count", n, m.h ? 1 : 0); n = 0; for (auto i = a.rbegin(); i != a.rend() && n < 3; ++i) { ++n; eq("reverse mutable", e::rd(*i), m.v); } eq("reverse mutable count", n, m.h ? 1 : 0); n = 0; for (auto i = c.crbegin(); i != c.crend() && n < 3; ++i) { ++n; eq("reverse c", e::rd(*i), m.v); } eq("reverse c count", n, m.h ? 1 : 0);
	if (m.h) { eq("operator*", e::rd(*c), m.v); eq("operator* mutable", e::rd(*a), m.v); eq("operator->", e::rd(*c.operator->()), m.v); eq("operator-> mutable", e::rd(*a.operator->()), m.v); eq("get_pointer", e::rd(*c.get_pointer()), m.v); eq("get_pointer is the value", c.get_pointer() == &*c && a.get_pointer() == &*c && c.get_ptr() == &c.value() && so::get(&c) == &*c && so::get_pointer(a) == &*c && &so::get(c) == &*c && &so::get(a) == &*c && &c.front() == &*c && &c.back() == &*c && &a.front() == &*c && &a.back() == &*c && &c[0] == &*c && &a[0] == &*c && &c.at(0) == &*c && &*c.begin() == &*c && &*a.begin() == &*c && &*c.cbegin() == &*c, true); O tmp(c); T r(so::get(std::move(tmp))); eq("get rvalue", e::rd(r), m.v);
		typename O::iterator i = a.begin(); typename O::const_iterator j = i; eq("iterator converts", e::rd(*j), m.v); ++j; eq("iterator reaches end", j == c.end(), true); --j; eq("iterator returns", e::rd(*j), m.v); i = a.end(); --i; eq("iterator from end", e::rd(*i), m.v); }
	eq("== nullopt", c == so::nullopt, !m.h); eq("nullopt ==", so::nullopt == c, !m.h); eq("!= nullopt", c != so::nullopt, m.h); eq("nullopt !=", so::nullopt != c, m.h); eq("< nullopt", c < so::nullopt, false); eq("nullopt <", so::nullopt < c, m.h); eq("> nullopt", c > so::nullopt, m.h); eq("nullopt >", so::nullopt > c, false); eq("<= nullopt", c <= so::nullopt, !m.h); eq("nullopt <=", so::nullopt <= c, true); eq(">= nullopt", c >= so::nullopt, true); eq("nullopt >=", so::nullopt >= c, !m.h);
}
template<class T> void relations(so::optional<T> const& a, M const& x, so::optional<T> const& b, M const& y) {
	eq("==", a == b, x == y); eq("!=", a != b, !(x == y)); eq("<", a < b, lt(x, y)); eq(">", a > b, lt(y, x)); eq("<=", a <= b, !lt(y, x)); eq(">=", a >= b, !lt(x, y));
}
template<class T> struct St { so::optional<T> a, b; M x, y; };
template<class T> struct Deep; // conversions from another optional
template<> struct Deep<int> { typedef short U; static short mk(int i) { return (short)i; } }; template<> struct Deep<Cls> { typedef int U; static int mk(int i) { return i; } }; template<> struct Deep<std::string> { typedef char const* U; static char const* mk(int i) { return i == 0 ? "a" : i == 1 ? "bb" : "ccc"; } };
template<class T> void text(so::optional<T> const& a, M const& x, so::optional<T> const& b, M const& y) {
	std::ostringstream o; o << a << '|' << b; std::ostringstream w; auto one = [&](M const& m) { if (!m.h) w << "--"; else w << ' ' << E<T>::mk(m.v); }; one(x); w << '|'; one(y); eq("operator<<", o.str(), w.str());
	std::ostringstream p; p << a; for (auto const& pre : {a, b}) { std::istringstream i(p.str()); so::optional<T> r(pre); i >> r; eq("operator>> after <<", r == a, true); eq("operator>> after << state", i.fail(), false); }
	std::ostringstream bad; bad.setstate(std::ios::failbit); bad << a; eq("operator<< on a failed stream", bad.str(), std::string());
}
template<class T> void hashes(so::optional<T> const& a, M const& x, std::true_type) { eq("hash_value", hash_value(a), x.h ? (std::size_t)so::to_hash(*a) : (std::size_t)0); eq("sprout hash", so::hash<so::optional<T> >()(a), hash_value(a)); eq("std hash", std::hash<so::optional<T> >()(a), hash_value(a)); }
template<class T> void hashes(so::optional<T> const&, M const&, std::false_type) {}
template<class T> void history() {
	typedef so::optional<T> O; typedef St<T> S; typedef E<T> e; std::vector<Op<S> > ops; typedef typename Deep<T>::U U; int const K = 3;
	auto op = [&](std::string const& n, std::function<bool(O&, M&, O&, M&)> f) { ops.push_back({n + " a", [f](S& s) { return f(s.a, s.x, s.b, s.y); }}); ops.push_back({n + " b", [f](S& s) { return f(s.b, s.y, s.a, s.x); }}); };
	op("= nullopt", [](O& a, M& x, O&, M&) { a = so::nullopt; x = M(); return true; }); op("reset()", [](O& a, M& x, O&, M&) { a.reset(); x = M(); return true; }); op("reset(nullopt)", [](O& a, M& x, O&, M&) { a.reset(so::nullopt); x = M(); return true; }); op("assign(nullopt)", [](O& a, M& x, O&, M&) { a.assign(so::nullopt); x = M(); return true; });
	op("= other", [](O& a, M& x, O& b, M& y) { a = (O const&)b; x = y; return true; }); op("= itself", [](O& a, M&, O&, M&) { O& r = a; a = r; return true; }); op("= move", [](O& a, M& x, O& b, M& y) { O t(b); a = std::move(t); x = y; return true; }); op("assign(other)", [](O& a, M& x, O& b, M& y) { a.assign(b); x = y; return true; }); op("assign(move)", [](O& a, M& x, O& b, M& y) { O t(b); a.assign(std::move(t)); x = y; return true; });
	op("move out", [](O& a, M& x, O& b, M& y) { a = std::move(b); x = y; b.reset(); y = M(); return true; });
	op("swap", [](O& a, M& x, O& b, M& y) { a.swap(b); std::swap(x, y); return true; }); op("swap(a, b)", [](O& a, M& x, O& b, M& y) { so::swap(a, b); std::swap(x, y); return true; }); op("swap itself", [](O& a, M&, O&, M&) { a.swap(a); return true; });
	for (int i = 0; i < K; ++i) { std::string n = " " + str(i);
		op("= value" + n, [i](O& a, M& x, O&, M&) { T const v = e::mk(i); a = v; x = M(i); return true; }); op("= rvalue" + n, [i](O& a, M& x, O&, M&) { a = e::mk(i); x = M(i); return true; }); op("assign value" + n, [i](O& a, M& x, O&, M&) { a.assign(e::mk(i)); x = M(i); return true; }); op("reset value" + n, [i](O& a, M& x, O&, M&) { a.reset(e::mk(i)); x = M(i); return true; });
		op("emplace" + n, [i](O& a, M& x, O&, M&) { a.emplace(e::mk(i)); x = M(i); return true; }); op("emplace convert" + n, [i](O& a, M& x, O&, M&) { a.emplace(Deep<T>::mk(i)); x = M(i); return true; }); op("= constructed" + n, [i](O& a, M& x, O&, M&) { a = O(e::mk(i)); x = M(i); return true; }); op("= in_place" + n, [i](O& a, M& x, O&, M&) { a = O(so::in_place, e::mk(i)); x = M(i); return true; });
		op("= cond true" + n, [i](O& a, M& x, O&, M&) { a = O(true, e::mk(i)); x = M(i); return true; }); op("= cond false" + n, [i](O& a, M& x, O&, M&) { a = O(false, e::mk(i)); x = M(); return true; }); op("= make_optional" + n, [i](O& a, M& x, O&, M&) { a = so::make_optional(e::mk(i)); x = M(i); return true; }); op("= make_optional cond" + n, [i](O& a, M& x, O& b, M& y) { a = so::make_optional(y.h, e::mk(i)); (void)b; x = y.h ? M(i) : M(); return true; });
		op("= converted" + n, [i](O& a, M& x, O&, M&) { so::optional<U> u(Deep<T>::mk(i)); a = u; x = M(i); return true; }); op("= converted rvalue" + n, [i](O& a, M& x, O&, M&) { a = so::optional<U>(Deep<T>::mk(i)); x = M(i); return true; }); op("= converted copy" + n, [i](O& a, M& x, O&, M&) { so::optional<U> const u(Deep<T>::mk(i)); a = O(u); x = M(i); return true; });
		op("*a =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; *a = e::mk(i); x.v = i; return true; }); op("value() =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; a.value() = e::mk(i); x.v = i; return true; }); op("get() =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; so::get(a) = e::mk(i); x.v = i; return true; }); op("*begin =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; *a.begin() = e::mk(i); x.v = i; return true; }); op("-> =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; *a.operator->() = e::mk(i); x.v = i; return true; }); op("pointer =" + n, [i](O& a, M& x, O&, M&) { if (!x.h) return false; *so::get(&a) = e::mk(i); x.v = i; return true; }); op("value_or =" + n, [i](O& a, M& x, O&, M&) { T d = e::mk(7); a.value_or(d) = e::mk(i); if (x.h) x.v = i; else eq("value_or writes the default", e::rd(d), i); return true; }); }
	op("= converted empty", [](O& a, M& x, O&, M&) { so::optional<U> const u; a = u; x = M(); return true; }); op("= converted empty rvalue", [](O& a, M& x, O&, M&) { a = so::optional<U>(); x = M(); return true; }); op("= empty", [](O& a, M& x, O&, M&) { a = O(); x = M(); return true; }); op("= nullopt ctor", [](O& a, M& x, O&, M&) { a = O(so::nullopt); x = M(); return true; });
	long base = Cls::live(); { St<T> init; bfs(init, ops, [](S const& s) { observe(s.a, s.x); observe(s.b, s.y); relations(s.a, s.x, s.b, s.y); relations(s.b, s.y, s.a, s.x); relations(s.a, s.x, s.a, s.x); text(s.a, s.x, s.b, s.y); hashes(s.a, s.x, std::integral_constant<bool, !std::is_same<T, std::string>::value>()); { O c(s.a); observe(c, s.x); O d(std::move(c)); observe(d, s.x); } return s.x.s() + s.y.s(); }, 100, 10000); } eq("no object is lost or destroyed twice", Cls::live(), base);
}
MC_SECTION(v01_int) { bound("histories", "pairs of optionals of int, class and string over 3 values: breadth-first over every operation to closure"); history<int>(); }
MC_SECTION(v01_class) { history<Cls>(); }
MC_SECTION(v01_string) { history<std::string>(); }
// references: an optional reference binds, never copies
struct SR { so::optional<int&> a, b; int x, y; int* cell; };
MC_SECTION(v01_reference) {
	typedef so::optional<int&> O; static int cell[3]; struct S { O a, b; int x, y; int c[3]; }; std::vector<Op<S> > ops; auto load = [](S const& s) { for (int i = 0; i < 3; ++i) cell[i] = s.c[i]; }; auto save = [](S& s) { for (int i = 0; i < 3; ++i) s.c[i] = cell[i]; };
	auto op = [&](std::string const& n, std::function<bool(O&, int&, O&, int&)> f) { ops.push_back({n + " a", [=](S& s) { load(s); bool r = f(s.a, s.x, s.b, s.y); save(s); return r; }}); ops.push_back({n + " b", [=](S& s) { load(s); bool r = f(s.b, s.y, s.a, s.x); save(s); return r; }}); };
	for (int i = 0; i < 3; ++i) { std::string n = " " + str(i); op("= cell" + n, [i](O& a, int& x, O&, int&) { a = cell[i]; x = i; return true; }); op("= O(cell)" + n, [i](O& a, int& x, O&, int&) { a = O(cell[i]); x = i; return true; }); op("= cond" + n, [i](O& a, int& x, O&, int& y) { a = O(y >= 0, cell[i]); x = y >= 0 ? i : -1; return true; });
		op("write" + n, [i](O& a, int& x, O&, int&) { if (x < 0) return false; int before[3] = {cell[0], cell[1], cell[2]}; *a = i; before[x] = i; eq("write goes to the cell", cell[0] == before[0] && cell[1] == before[1] && cell[2] == before[2], true); return true; }); op("const write" + n, [i](O& a, int& x, O&, int&) { if (x < 0) return false; O const& c = a; *c = i; eq("write through const", cell[x], i); return true; }); op("value write" + n, [i](O& a, int& x, O&, int&) { if (x < 0) return false; a.value() = i; eq("write through value", cell[x], i); return true; }); }
	op("reset", [](O& a, int& x, O&, int&) { a.reset(); x = -1; return true; }); op("= other", [](O& a, int& x, O& b, int& y) { a = b; x = y; return true; }); op("= move", [](O& a, int& x, O& b, int& y) { O t(b); a = std::move(t); x = y; return true; }); op("swap", [](O& a, int& x, O& b, int& y) { a.swap(b); std::swap(x, y); return true; }); op("= nullopt", [](O& a, int& x, O&, int&) { a = so::nullopt; x = -1; return true; });
	S init; init.x = init.y = -1; for (int i = 0; i < 3; ++i) init.c[i] = 0; bfs(init, ops, [&](S const& s) { load(s); auto obs = [&](O const& c, int x) { eq("reference is_initialized", c.is_initialized(), x >= 0); int k; eq("reference value throws", throws([&]() { (void)c.value(); }, k), x < 0); if (x >= 0) { eq("reference binds the cell", &*c == &cell[x] && &c.value() == &cell[x] && c.get_pointer() == &cell[x] && so::get(&c) == &cell[x] && c.operator->() == &cell[x] && &c.front() == &cell[x] && &*c.begin() == &cell[x], true); O d(c); eq("copy binds the cell", &*d == &cell[x], true); O e(std::move(d)); eq("move binds the cell", &*e == &cell[x], true); int n = 0; for (int const& v : c) { ++n; eq("reference iterate", &v == &cell[x], true); } eq("reference iterate count", n, 1); } }; obs(s.a, s.x); obs(s.b, s.y);
		M m = s.x < 0 ? M() : M(cell[s.x]), k = s.y < 0 ? M() : M(cell[s.y]); relations(s.a, m, s.b, k); return str(s.x) + "," + str(s.y) + "," + str(s.c[0]) + str(s.c[1]) + str(s.c[2]); }, 100, 20000);
	int const cc[2] = {5, 6}; so::optional<int const&> r(cc[0]); eq("const reference binds", &*r == &cc[0], true); r = cc[1]; eq("const reference rebinds", &*r == &cc[1], true); eq("const reference leaves the cell", cc[0], 5); so::optional<int const&> r2(r); eq("const reference copies", &*r2 == &cc[1], true); r.reset(); eq("const reference reset", r.is_initialized(), false);
}
MC_SECTION(v01_construct) {
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { MC_STATE("in_place(" + str(i) + ", " + str(j) + ")"); trace(); so::optional<Agg> a(so::in_place, i, j); eq("in_place arguments", a.is_initialized() && a->v == i && a->w == j, true); so::optional<Agg> b; b.emplace(j, i); eq("emplace arguments", b.is_initialized() && b->v == j && b->w == i, true); so::optional<Agg> c(so::in_place, {i, j, 1}); eq("in_place list", c->v * 10 + c->w, (i * 100 + j * 10 + 1) * 10 + 3); b.emplace({j, i}); eq("emplace list", b->v * 10 + b->w, (j * 10 + i) * 10 + 2); so::optional<Cls> d(so::in_place, i, j); eq("in_place class", d->v, i * 10 + j);
		so::optional<Cls> e(d); e.emplace(i, j); eq("emplace class", e->v, i * 10 + j); eq("emplace leaves the copy", d->v, i * 10 + j); }
	// text that is not an optional
	static char const al[] = {'-', ' ', '1', 'x'}; bound("text", "every text up to 4 over - space 1 x"); sequences_upto(4, 4, [&](std::vector<int> const& v) { std::string s; for (int i : v) s += al[i]; MC_STATE("operator>> '" + s + "'"); trace(); for (int pre = 0; pre < 2; ++pre) { so::optional<int> o; if (pre) o = 77; std::istringstream i(s); i >> o;
		bool okk = false; M want = pre ? M(77) : M(); if (s.size() >= 2 && s[0] == '-' && s[1] == '-') { okk = true; want = M(); } else if (!s.empty() && s[0] == ' ') { std::istringstream j(s.substr(1)); int x = 0; j >> x; okk = !j.fail(); if (okk) want = M(x); } eq("operator>> fails", i.fail(), !okk); if (okk) { eq("operator>> value", o.is_initialized() == want.h && (!want.h || *o == want.v), true); } else if (s.empty() || s[0] != ' ') eq("operator>> failure leaves the value", o.is_initialized() == want.h && (!want.h || *o == want.v), true); } });
#if __cplusplus >= 201402L
	{ struct X { static constexpr int f() { so::optional<int> a(3), b; b = a; a = so::nullopt; if (a || !b || *b != 3) return 1; a.emplace(4); a.swap(b); if (*a != 3 || *b != 4) return 2; *a = 9; b = 5; b.reset(); return a.value() == 9 && b == so::nullopt && a > b && a.value_or(b.get_value_or(a.value())) == 9 ? 0 : 3; } }; constexpr int r = X::f(); eq("compile time", r, 0); }
#endif
	constexpr so::optional<int> n; constexpr so::optional<int> o(4); static_assert(!n && o && *o == 4 && o.value() == 4 && n != o && n < o && o.size() == 1 && n.empty() && *o.begin() == 4 && o == so::make_optional(4) && n == so::nullopt, ""); constexpr so::optional<int> p(o); static_assert(p == o && p.get() == 4 && *p.get_pointer() == 4 && n.get_pointer() == 0, "");
}

#include <sprout/utility/value_holder.hpp>
#include <sprout/utility/value_holder/get.hpp>
#include <sprout/utility/compare_pointees.hpp>
#include <sprout/memory/exempt_ptr.hpp>
#if __cplusplus >= 201402L
// ---- the holders next to optional: one value (or a reference), and a pointer that owns nothing
struct Pair { int a, b; Pair() : a(-1), b(-1) {} Pair(int a_, int b_) : a(a_), b(b_) {} };
MC_SECTION(v01_value_holder) {
	typedef sprout::value_holder<std::string> H; typedef sprout::value_holder<int&> R; typedef sprout::value_holder<int const&> C;
	char const* pool[] = {"", "a", "a string that does not fit into the object"};
	for (auto s : pool) for (auto t : pool) {
		MC_STATE("value_holder of '" + std::string(s) + "' and '" + t + "'"); trace();
		std::string S(s), T(t);
		H h(S); H const& c = h;
		auto is = [&](char const* op, H& x, std::string const& w) { H const& k = x; ok(op, *x == w && *k == w && x.get() == w && k.get() == w && x.value() == w && k.value() == w && x->size() == w.size() && k->size() == w.size() && *x.get_pointer() == w && *k.get_pointer() == w && *x.get_ptr() == w && *k.get_ptr() == w
			&& static_cast<std::string&>(x) == w && static_cast<std::string const&>(k) == w && static_cast<bool>(k) && !!k && k.is_initialized() && sprout::get(x) == w && sprout::get(k) == w && *sprout::get_pointer(x) == w && *sprout::get_pointer(k) == w && &*x == &*k && &*x == x.get_pointer() && sprout::get(&x) == &*x && sprout::get(&k) == &*k); };
		is("value_holder: access", h, S);
		H u(T); h.swap(u); is("value_holder: swap", h, T); is("value_holder: swap", u, S); swap(h, u); is("value_holder: swap function", h, S); is("value_holder: swap function", u, T);
		h = T; is("value_holder: = value", h, T); h = std::string(S); is("value_holder: = rvalue", h, S); h = u; is("value_holder: = holder", h, T); is("value_holder: = holder leaves its source", u, T); h = H(S); is("value_holder: = temporary holder", h, S);
		H m(std::move(u)); is("value_holder: move construction", m, T); std::string out(sprout::get(std::move(m))); eq("value_holder: get of rvalue", out, T);
		H n(sprout::in_place, 3, 'x'); is("value_holder: in place", n, "xxx"); H il(sprout::in_place, {'a', 'b'}); is("value_holder: in place list", il, "ab"); H d; is("value_holder: default", d, ""); *d = T; is("value_holder: write through", d, T); d->push_back('!'); is("value_holder: write through ->", d, T + "!");
	}
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		MC_STATE("value_holder of a reference to object " + str(i) + ", then " + str(j)); trace();
		int a[3] = {4, 5, 6}; R r(a[i]); ok("value_holder<T&>: refers", &*r == a + i && &r.get() == a + i && r.get_pointer() == a + i && r.is_initialized());
		*r = 9; eq("value_holder<T&>: writes through", a[i], 9); R q(a[j]); r = q; ok("value_holder<T&>: assignment rebinds", &*r == a + j); r = a[i]; ok("value_holder<T&>: assignment of an object rebinds", &*r == a + i); r.swap(q); ok("value_holder<T&>: swap", &*r == a + j && &*q == a + i);
		R const& k = q; *k = 7; eq("value_holder<T&>: const holder writes through", a[i], 7); C c(a[i]); ok("value_holder<T const&>: refers", &*c == a + i && c.get_ptr() == a + i);
	}
}
struct Base { int b; }; struct Derived : Base { int d; };
MC_SECTION(v01_exempt_ptr) {
	typedef sprout::exempt_ptr<Pair> E; typedef sprout::exempt_ptr<Pair const> EC;
	for (int i = -1; i < 4; ++i) for (int j = -1; j < 4; ++j) {
		MC_STATE("exempt_ptr to object " + str(i) + " and " + str(j)); trace();
		Pair a[4]; for (int k = 0; k < 4; ++k) a[k] = Pair(k, 10 + k);
		Pair* p = i < 0 ? 0 : a + i; Pair* q = j < 0 ? 0 : a + j; E e(p), f(q); E const& k = e; EC c(e);
		ok("exempt_ptr: get", k.get() == p && static_cast<Pair*>(k) == p && static_cast<bool>(k) == (p != 0) && c.get() == p && EC(p).get() == p && sprout::make_exempt(p).get() == p);
		if (p) ok("exempt_ptr: access", &*k == p && &k->a == &p->a && &*c == p);
		E t; t = p; ok("exempt_ptr: = pointer", t.get() == p); E* self = &(t = f); ok("exempt_ptr: = exempt_ptr", t.get() == q && self == &t); t = nullptr; ok("exempt_ptr: = nullptr", !t && t == nullptr); c = f; ok("exempt_ptr: = other", c.get() == q); c = p; ok("exempt_ptr: = other pointer", c.get() == p);
		t.reset(q); Pair* r = t.release(); ok("exempt_ptr: reset, release", r == q && t.get() == 0); t.reset(q); t.reset(); ok("exempt_ptr: reset to nothing", t.get() == 0);
		Derived d; sprout::exempt_ptr<Derived> dp(&d); sprout::exempt_ptr<Base> bp(dp); ok("exempt_ptr: to base", bp.get() == &d); sprout::exempt_ptr<Base> bq; bq = dp; ok("exempt_ptr: = derived", bq.get() == &d); bq = nullptr; bq = &d; ok("exempt_ptr: = derived pointer", bq.get() == &d);
		std::ostringstream o1, o2; o1 << k; o2 << p; eq("exempt_ptr: output", o1.str(), o2.str());
		ok("exempt_ptr: comparison with nullptr", (k == nullptr) == (p == 0) && (nullptr == k) == (p == 0) && (k != nullptr) == (p != 0) && (nullptr != k) == (p != 0));
		if (p) {
			E x(e); E y = x++; ok("exempt_ptr: it++", y.get() == p && x.get() == p + 1); y = x--; ok("exempt_ptr: it--", y.get() == p + 1 && x.get() == p); E* s1 = &++x; ok("exempt_ptr: ++it", s1 == &x && x.get() == p + 1); E* s2 = &--x; ok("exempt_ptr: --it", s2 == &x && x.get() == p);
			for (int n = -i; n <= 4 - i; ++n) { ok("exempt_ptr: it + n, it - n", (k + n).get() == p + n && (n + k).get() == p + n && (k - (-n)).get() == p + n && (k + n) - k == n && (+k).get() == p); if (n + i < 4) ok("exempt_ptr: it[n]", &e[n] == p + n && &k[n] == p + n); }
			if (q) ok("exempt_ptr: difference", f - e == q - p);
		}
	}
}
MC_SECTION(v01_pointees) {
	int v[3] = {1, 2, 1};
	for (int i = -1; i < 3; ++i) for (int j = -1; j < 3; ++j) {
		MC_STATE("pointees " + str(i) + " and " + str(j)); trace();
		int const* p = i < 0 ? 0 : v + i; int const* q = j < 0 ? 0 : v + j; sprout::optional<int> a, b; if (p) a = *p; if (q) b = *q;
		int x = p ? *p : 0, y = q ? *q : 0; // nothing comes before every value
#define PT(f, op) eq(#f, sprout::f(p, q), x op y); eq(#f " of optionals", sprout::f(a, b), x op y); eq(#f "_t", sprout::f##_t<int const*>()(p, q), x op y); eq(#f "_t of optionals", sprout::f##_t<sprout::optional<int> >()(a, b), x op y);
		PT(equal_pointees, ==) PT(not_equal_pointees, !=) PT(less_pointees, <) PT(greater_pointees, >) PT(less_equal_pointees, <=) PT(greater_equal_pointees, >=)
	}
}
#endif
