// V05: three-valued logic
#include "mc.hpp"
#include <sprout/logic/tribool.hpp>
#include <sprout/logic/tribool/io.hpp>
#include <sprout/logic/tribool/hash.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
using namespace mc;
namespace so = sprout;
typedef so::tribool T;
SPROUT_TRIBOOL_THIRD_STATE(unknown)
// 0 false, 1 true, 2 unknown
inline int val(T t) { return so::indeterminate(t) ? 2 : t ? 1 : 0; }
inline T mk(int i) { return i == 2 ? T(so::indeterminate) : T(i == 1); }
inline int knot(int a) { return a == 2 ? 2 : !a; }
inline int kand(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; }
inline int kor(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
inline int keq(int a, int b) { return a == 2 || b == 2 ? 2 : a == b; }
inline int kne(int a, int b) { return knot(keq(a, b)); }
MC_SECTION(v05_tables) {
	bound("tables", "every operator with every combination of tribool, bool and indeterminate operands, complete");
	{ MC_STATE("defaults"); trace(); eq("default", val(T()), 0); eq("indeterminate", val(T(so::indeterminate)), 2); eq("from bool", val(T(true)), 1); eq("from bool", val(T(false)), 0); eq("copy", val(T(T(so::indeterminate))), 2); T x = unknown; eq("named third state", val(x), 2); eq("named third state test", unknown(T(true)), false); eq("named third state test", unknown(x), true); }
	for (int a = 0; a < 3; ++a) {
		MC_STATE("operand " + str(a)); trace(); T const x = mk(a);
		eq("!", val(!x), knot(a)); eq("indeterminate(x)", so::indeterminate(x), a == 2); eq("conversion to bool", x ? true : false, a == 1); eq("conversion of the negation", !x ? true : false, a == 0); eq("value", (int)x.value, a);
		eq("x && indeterminate", val(x && so::indeterminate), kand(a, 2)); eq("indeterminate && x", val(so::indeterminate && x), kand(2, a)); eq("x || indeterminate", val(x || so::indeterminate), kor(a, 2)); eq("indeterminate || x", val(so::indeterminate || x), kor(2, a));
		eq("x == indeterminate", val(x == so::indeterminate), 2); eq("indeterminate == x", val(so::indeterminate == x), 2); eq("x != indeterminate", val(x != so::indeterminate), 2); eq("indeterminate != x", val(so::indeterminate != x), 2);
		for (int b = 0; b < 2; ++b) {
			bool const y = b == 1; MC_STATE("operand " + str(a) + ", bool " + str(b)); trace();
			eq("x && bool", val(x && y), kand(a, b)); eq("bool && x", val(y && x), kand(a, b)); eq("x || bool", val(x || y), kor(a, b)); eq("bool || x", val(y || x), kor(a, b)); eq("x == bool", val(x == y), keq(a, b)); eq("bool == x", val(y == x), keq(a, b)); eq("x != bool", val(x != y), kne(a, b)); eq("bool != x", val(y != x), kne(a, b));
			T z = x; z = y; eq("assignment of bool", val(z), b);
		}
		for (int b = 0; b < 3; ++b) {
			T const y = mk(b); MC_STATE("operands " + str(a) + ", " + str(b)); trace();
			eq("x && y", val(x && y), kand(a, b)); eq("x || y", val(x || y), kor(a, b)); eq("x == y", val(x == y), keq(a, b)); eq("x != y", val(x != y), kne(a, b));
			T z = x; z = y; eq("assignment", val(z), b); z = so::indeterminate; eq("assignment of indeterminate", val(z), 2);
			eq("hash_value", so::to_hash(x) == so::to_hash(y), a == b); eq("std::hash", std::hash<T>()(x) == std::hash<T>()(y), a == b); eq("std::hash is to_hash", std::hash<T>()(x), (std::size_t)so::to_hash(x));
			if (a == 2) eq("hash of indeterminate", so::to_hash(so::indeterminate), so::to_hash(x));
		}
	}
}
// every expression of a bounded depth, over every assignment of its variables
struct Ex { T t; int m; std::string s; };
MC_SECTION(v05_expressions) {
	int depth = thorough() ? 3 : 2; bound("expressions", "every expression over three variables, two bools and indeterminate with ! && || == != nested to depth " + str(depth) + ", every assignment (equal values merged per level)");
	sequences(3, 3, [&](std::vector<int> const& v) {
		std::vector<Ex> pool; for (int i = 0; i < 3; ++i) pool.push_back(Ex{mk(v[i]), v[i], std::string(1, "xyz"[i])});
		for (int d = 0; d < depth; ++d) {
			std::vector<Ex> next = pool;
			for (Ex const& p : pool) {
				MC_STATE("x y z = " + str(v) + ": " + p.s); trace(); eq("expression", val(p.t), p.m);
				next.push_back(Ex{!p.t, knot(p.m), "!(" + p.s + ")"});
				for (bool b : {false, true}) { next.push_back(Ex{p.t && b, kand(p.m, b), "(" + p.s + " && " + str(b) + ")"}); next.push_back(Ex{b || p.t, kor(b, p.m), "(" + str(b) + " || " + p.s + ")"}); next.push_back(Ex{p.t != b, kne(p.m, b), "(" + p.s + " != " + str(b) + ")"}); }
				next.push_back(Ex{p.t || so::indeterminate, kor(p.m, 2), "(" + p.s + " || ?)"}); next.push_back(Ex{so::indeterminate && p.t, kand(2, p.m), "(? && " + p.s + ")"});
				for (Ex const& q : pool) { next.push_back(Ex{p.t && q.t, kand(p.m, q.m), "(" + p.s + " && " + q.s + ")"}); next.push_back(Ex{p.t || q.t, kor(p.m, q.m), "(" + p.s + " || " + q.s + ")"}); next.push_back(Ex{p.t == q.t, keq(p.m, q.m), "(" + p.s + " == " + q.s + ")"}); next.push_back(Ex{p.t != q.t, kne(p.m, q.m), "(" + p.s + " != " + q.s + ")"}); }
			}
			if (d + 1 == depth) for (Ex const& p : next) { MC_STATE("x y z = " + str(v) + ": " + p.s); trace(); eq("expression", val(p.t), p.m); eq("expression as condition", p.t ? true : false, p.m == 1); }
			if (d > 0) { std::map<std::pair<int, int>, Ex> m; for (Ex const& p : next) m.insert(std::make_pair(std::make_pair(p.m, val(p.t)), p)); next.clear(); for (auto const& p : m) next.push_back(p.second); }
			pool = next;
		}
	});
}
template<class C> struct Punct : std::numpunct<C> { typedef std::basic_string<C> S; S t, f; Punct(S const& a, S const& b) : t(a), f(b) {} S do_truename() const { return t; } S do_falsename() const { return f; } };
template<class C> std::basic_string<C> wid(std::string const& s) { return std::basic_string<C>(s.begin(), s.end()); }
template<class C> void text(std::string const& f, std::string const& t, std::string const& o, bool facets, std::string const& letters, int maxlen) {
	typedef std::basic_string<C> S; std::string const names[3] = {f, t, o}; std::locale loc = std::locale::classic(); if (facets) loc = std::locale(std::locale(loc, new Punct<C>(wid<C>(t), wid<C>(f))), new so::logic::indeterminate_name<C>(wid<C>(o)));
	for (int a = 0; a < 3; ++a) for (int alpha = 0; alpha < 2; ++alpha) {
		MC_STATE("printing " + str(a) + (alpha ? " as a name" : " as a number") + " names " + f + "/" + t + "/" + o); trace();
		std::basic_ostringstream<C> s; s.imbue(loc); if (alpha) s << std::boolalpha; s << mk(a); S want = alpha ? wid<C>(names[a]) : wid<C>(str(a)); eq("operator<<", s.str() == want, true);
		if (a == 2) { std::basic_ostringstream<C> k; k.imbue(loc); if (alpha) k << std::boolalpha; k << so::indeterminate; eq("operator<< of indeterminate", k.str() == want, true); }
		for (int old = 0; old < 3; ++old) { std::basic_istringstream<C> i(s.str()); i.imbue(loc); if (alpha) i >> std::boolalpha; T r = mk(old); i >> r; eq("operator>> after <<", val(r), a); eq("operator>> after << succeeds", !!i, true); }
		std::basic_istringstream<C> i(wid<C>("  ") + s.str() + wid<C>(" 7")); i.imbue(loc); if (alpha) i >> std::boolalpha; T r; int n = 0; i >> r >> n; eq("operator>> between other text", val(r), a); eq("operator>> leaves the rest", n, 7);
	}
	// every short text: a value is read exactly when the text starts with a name (after spaces), else the read fails and the value is unchanged
	std::string alphabet = letters; auto check = [&](std::string const& x) {
		for (int alpha = 0; alpha < 2; ++alpha) {
			MC_STATE("reading \"" + x + "\"" + (alpha ? " as a name" : " as a number") + " names " + f + "/" + t + "/" + o); trace();
			int want = -1; std::size_t p = x.find_first_not_of(' '); if (p == std::string::npos) p = x.size();
			if (alpha) { for (int k = 0; k < 3; ++k) if (x.compare(p, names[k].size(), names[k]) == 0 && x.size() - p >= names[k].size()) want = k; }
			else { std::istringstream i(x); long v; if (i >> v && v >= 0 && v <= 2) want = (int)v; }
			for (int old = 0; old < 3; ++old) { std::basic_istringstream<C> i(wid<C>(x)); i.imbue(loc); if (alpha) i >> std::boolalpha; T r = mk(old); i >> r; eq("operator>> succeeds", !!i, want >= 0); eq("operator>> value", val(r), want >= 0 ? want : old);
				if (alpha && want >= 0) { std::basic_string<C> rest; std::getline(i, rest); eq("operator>> consumes the name", rest == wid<C>(x.substr(p + names[want].size())), true); } }
		}
	};
	for (int n = 0; n <= maxlen; ++n) sequences(n, (int)alphabet.size(), [&](std::vector<int> const& v) { std::string x; for (int i : v) x += alphabet[i]; check(x); });
	for (int k = 0; k < 3; ++k) for (std::size_t cut = 0; cut <= names[k].size(); ++cut) for (std::string tail : {"", " ", "x", "e", "0"}) { check(names[k].substr(0, cut) + tail); check(" " + names[k].substr(0, cut) + tail); for (char c : alphabet) { std::string y = names[k]; if (cut < y.size()) { y[cut] = c; check(y); } } }
}
MC_SECTION(v05_text) {
	bound("text", "three sets of names, every text up to 5 characters over their letters, every prefix and one-letter change of a name");
	text<char>("false", "true", "indeterminate", false, "ti 02", thorough() ? 5 : 4); text<char>("no", "yes", "maybe", true, "noyes 1", 4); text<char>("off", "on", "other", true, "ofnther", thorough() ? 6 : 5); text<char>("F", "T", "U", true, "FTU 1", 3); text<wchar_t>("no", "yes", "maybe", true, "noyes 2", 3); text<wchar_t>("false", "true", "indeterminate", false, "ti 01", 3);
}
#define SA(...) static_assert(__VA_ARGS__, "constant")
SA(so::indeterminate(T(true) && so::indeterminate)); SA(!so::indeterminate(T(false) && so::indeterminate)); SA((T(false) || T(true)) ? true : false); SA(so::indeterminate(!T(so::indeterminate))); SA((T(true) == true) ? true : false); SA(so::indeterminate(T(so::indeterminate) != false));
