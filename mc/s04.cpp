// S04: string views over text that ends at an unmapped page: every observer, search, slice and comparison, every position.
#include "mc.hpp"
#include "guard.hpp"
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/container.hpp>
#include <sstream>

using namespace mc;
typedef std::string S;
static std::string q(S const& s) { S r; for (char c : s) { if (c) r += c; else r += '0'; } return "\"" + r + "\""; }
typedef sprout::basic_string_view<char> V;
template<class C> std::string sv(C const& c) { S r; for (auto i = c.begin(); i != c.end() && r.size() < 100; ++i) r += (char)*i; return r; }
template<class F> int outcome(F const& f) { try { f(); } catch (std::length_error const&) { return 1; } catch (std::out_of_range const&) { return 2; } catch (...) { return 3; } return 0; }
static std::vector<S> words(size_t n, const char* al, int k) { std::vector<S> r; sequences_upto((int)n, k, [&](std::vector<int> const& v) { S s; for (int x : v) s += al[x]; r.push_back(s); }); return r; }
static int sgn(int x) { return (x > 0) - (x < 0); }
void isview(const char* op, V const& v, const char* p, size_t n) { ok(op, v.size() == n); ok(op, n == 0 || v.data() == p); }
void access(V c, const char* p, S const& m) {
	size_t n = m.size(); V const& k = c; V o = c;
	eq("size", (size_t)k.size(), n); eq("length", (size_t)k.length(), n); eq("empty", k.empty(), n == 0); ok("data", k.data() == p); ok("c_str", k.c_str() == p);
	eq("begin..end", q(sv(c)), q(m)); eq("const begin..end", q(sv(k)), q(m));
	S r, r3, cb, m2(m.rbegin(), m.rend()); for (auto i = k.rbegin(); i != k.rend(); ++i) r += *i; for (auto i = k.crbegin(); i != k.crend(); ++i) r3 += *i; for (auto i = k.cbegin(); i != k.cend(); ++i) cb += *i;
	eq("rbegin..rend", q(r), q(m2)); eq("crbegin..crend", q(r3), q(m2)); eq("cbegin..cend", q(cb), q(m));
	for (size_t i = 0; i < n; ++i) { eq("[]", k[i], m[i]); eq("at", k.at(i), m[i]); ok("[] addresses the text", &k[i] == p + i); }
	for (size_t i : {n, n + 1, (size_t)-1}) eq("at out of range", outcome([&] { (void)k.at(i); }), 2);
	if (n) { eq("front", k.front(), m[0]); eq("back", k.back(), m[n - 1]); }
	for (size_t x = 0; x <= n + 2; ++x) {
		size_t y = std::min(x, n);
		{ V t = c; t.remove_prefix(x); isview("remove_prefix", t, p + y, n - y); V t2 = c; t2.remove_suffix(x); isview("remove_suffix", t2, p, n - y); isview("remove_prefix const", k.remove_prefix(x), p + y, n - y); isview("remove_suffix const", k.remove_suffix(x), p, n - y); }
		for (size_t l : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, n, n + 1, (size_t)-1, (size_t)-2}) {
			S w; V g; int o1 = outcome([&] { g = k.substr(x, l); }), o2 = outcome([&] { w = m.substr(x, l); });
			eq("substr: outcome", o1, o2); if (!o2 && !o1) { isview("substr", g, p + x, w.size()); eq("substr", g.size() <= n ? q(sv(g)) : S("too long"), q(S(w))); }
			char b1[8] = {1, 1, 1, 1, 1, 1, 1, 1}, b2[8] = {1, 1, 1, 1, 1, 1, 1, 1}; size_t g1 = 99, g2 = 99;
			o1 = outcome([&] { g1 = k.copy(b1, l, x); }); o2 = outcome([&] { g2 = m.copy(b2, l, x); }); eq("copy: outcome", o1, o2); eq("copy: count", g1, g2); eq("copy: characters", S(b1, 8), S(b2, 8));
		}
	}
	{ V t = c; t.clear(); ok("clear", t.size() == 0 && t.empty()); V a("xy", 2), b = c; a.swap(b); isview("swap", a, p, n); eq("swap", S(b.data(), b.size()), S("xy")); sprout::swap(a, b); isview("sprout::swap", b, p, n); V d; d = c; isview("assign", d, p, n); V e(c); isview("copy", e, p, n); e = e; isview("self assign", e, p, n); }
	auto z = k.to_string<4>(); eq("to_string<N>", q(S(z.data(), z.size())), q(m)); auto z1 = k.to_string(); eq("to_string", q(S(z1.data(), z1.size())), q(m));
	auto z2 = (sprout::basic_string<char, 4>)k; eq("conversion to string<N>", q(S(z2.data(), z2.size())), q(m)); eq("to_string too long throws", outcome([&] { (void)k.to_string<1>(); }), n > 1 ? 1 : 0);
	auto z3 = (std::basic_string<char, sprout::char_traits<char> >)k; eq("conversion to std string", q(S(z3.data(), z3.size())), q(m));
	{ std::ostringstream os; os << k; eq("stream insertion", q(os.str()), q(m)); }
	isview("to_string_view(view)", sprout::to_string_view(k), p, n); isview("to_string_view(ptr, n)", sprout::to_string_view(p, n), p, n); auto zz = k.to_string<4>(); isview("to_string_view(string)", sprout::to_string_view(zz), zz.data(), n); isview("view of string", V(zz), zz.data(), n);
	ok("source unchanged", c.data() == p && c.size() == n);
	V none; ok("default view", none.empty() && none.size() == 0 && none.begin() == none.end());
}
MC_SECTION(s04_access) {
	bound("texts", "every text up to 4 over {a, b, NUL}"); Guard g;
	for (S const& w : words(4, "ab\0", 3)) { char* p = g.put(w.data(), w.size()); MC_STATE("view " + q(w)); trace(); access(V(p, w.size()), p, w); }
	for (S const& w : words(4, "ab", 2)) { char* p = g.put(w.c_str(), w.size() + 1); MC_STATE("view of c string " + q(w)); trace(); access(V(p), p, w); access(sprout::to_string_view((char const*)p), p, w); }
}
#define FIND(f) \
	for (size_t p : ps) { eq(#f "(view, pos)", (size_t)k.f(o, p), m.f(w, p)); eq(#f "(ptr, pos, n)", (size_t)k.f(wp, p, w.size()), m.f(w, p)); eq(#f "(iterator, pos, n)", (size_t)k.f(o.begin(), p, w.size()), m.f(w, p)); if (z) { eq(#f "(c_str, pos)", (size_t)k.f(z, p), m.f(w, p)); eq(#f "(iterator, pos)", (size_t)k.f(zv.begin(), p), m.f(w, p)); } } \
	eq(#f "(view)", (size_t)k.f(o), m.f(w)); if (z) { eq(#f "(c_str)", (size_t)k.f(z), m.f(w)); eq(#f "(iterator)", (size_t)k.f(zv.begin()), m.f(w)); }
#define FINDC(f) for (char c : {'a', 'b', 'c', '\0'}) { for (size_t p : ps) eq(#f "(char, pos)", (size_t)k.f(c, p), m.f(c, p)); eq(#f "(char)", (size_t)k.f(c), m.f(c)); }
void search(const char* al, int kk, size_t ln, size_t wn) {
	bound("searches", "texts up to " + str(ln) + ", needles up to " + str(wn) + " over " + str(kk) + " letters, every position");
	std::vector<S> ts = words(ln, al, kk), ws = words(wn, al, kk); Guard g1, g2, g3;
	for (S const& m : ts) {
		size_t n = m.size(); char* mp = g1.put(m.data(), n); V k0(mp, n); V const& k = k0;
		std::vector<size_t> ps; for (size_t i = 0; i <= n + 2; ++i) ps.push_back(i); ps.push_back((size_t)-1); ps.push_back((size_t)-2);
		{ MC_STATE("text " + q(m)); trace(); FINDC(find) FINDC(rfind) FINDC(find_first_of) FINDC(find_last_of) FINDC(find_first_not_of) FINDC(find_last_not_of)
		  for (char c : {'a', 'b', '\0'}) { eq("starts_with(char)", k.starts_with(c), n && m[0] == c); eq("ends_with(char)", k.ends_with(c), n && m[n - 1] == c); } }
		for (S const& w : ws) {
			MC_STATE("text " + q(m) + " needle " + q(w)); trace();
			char* wp = g2.put(w.data(), w.size()); V o0(wp, w.size()); V const& o = o0; bool nul = w.find('\0') != S::npos; const char* z = nul ? 0 : g3.put(w.c_str(), w.size() + 1); V zv0(z ? z : "", w.size()); V const& zv = zv0;
			FIND(find) FIND(rfind) FIND(find_first_of) FIND(find_last_of) FIND(find_first_not_of) FIND(find_last_not_of)
			int cw = sgn(m.compare(w));
			eq("compare(view)", sgn(k.compare(o)), cw); if (z) { eq("compare(c_str)", sgn(k.compare(z)), cw); eq("compare(iterator)", sgn(k.compare(zv.begin())), cw); }
			eq("==", k == o, m == w); eq("!=", k != o, m != w); eq("<", k < o, m < w); eq(">", k > o, m > w); eq("<=", k <= o, m <= w); eq(">=", k >= o, m >= w);
			if (z) { eq("== ptr", k == z, m == w); eq("!= ptr", k != z, m != w); eq("< ptr", k < z, m < w); eq("> ptr", k > z, m > w); eq("<= ptr", k <= z, m <= w); eq(">= ptr", k >= z, m >= w);
				eq("ptr ==", z == k, w == m); eq("ptr !=", z != k, w != m); eq("ptr <", z < k, w < m); eq("ptr >", z > k, w > m); eq("ptr <=", z <= k, w <= m); eq("ptr >=", z >= k, w >= m); }
			eq("starts_with(view)", k.starts_with(o), m.size() >= w.size() && m.substr(0, w.size()) == w); eq("ends_with(view)", k.ends_with(o), m.size() >= w.size() && m.substr(m.size() - w.size()) == w);
			for (size_t p = 0; p <= n + 1; ++p) for (size_t l : {(size_t)0, (size_t)1, (size_t)2, (size_t)-1}) {
				int r1 = 9, r2 = 9; int o1 = outcome([&] { r1 = sgn(k.compare(p, l, o)); }), o2 = outcome([&] { r2 = sgn(m.compare(p, l, w)); }); eq("compare(pos, n, view)", str(o1) + str(r1), str(o2) + str(r2));
				r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, wp, w.size())); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w)); }); eq("compare(pos, n, ptr, n2)", str(o1) + str(r1), str(o2) + str(r2));
				if (z) { r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, z)); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w)); }); eq("compare(pos, n, c_str)", str(o1) + str(r1), str(o2) + str(r2)); }
				for (size_t p2 = 0; p2 <= w.size() + 1; ++p2) for (size_t l2 : {(size_t)0, (size_t)1, (size_t)-1}) { r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, o, p2, l2)); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w, p2, l2)); }); eq("compare(pos, n, view, pos2, n2)", str(o1) + str(r1), str(o2) + str(r2)); }
			}
		}
	}
}
MC_SECTION(s04_search) { search("ab", 2, 5, 3); }
MC_SECTION(s04_search_nul) { search("a\0\xff", 3, 3, 2); }
MC_SECTION(s04_search_long) { search("ab", 2, 4, 5); }
MC_SECTION(s04_search_deep) { if (thorough()) search("abc", 3, 6, 4); else search("abc", 3, 3, 3); }
// strings built from pointers and lengths never read past the length either
MC_SECTION(s04_string_from_text) {
	Guard g; for (S const& w : words(4, "ab", 2)) { char* p = g.put(w.data(), w.size()); MC_STATE("text " + q(w)); trace(); typedef sprout::basic_string<char, 4> B;
		B b(p, w.size()); eq("basic_string(ptr, n)", sv(b), w); b = B(); b.assign(p, w.size()); eq("assign(ptr, n)", sv(b), w); b = B(); b.append(p, w.size()); eq("append(ptr, n)", sv(b), w); eq("find(ptr, pos, n)", (size_t)b.find(p, 0, w.size()), (size_t)0); eq("compare(0, n, ptr, n)", b.compare(0, w.size(), p, w.size()), 0); }
}
MC_SECTION(s04_wide) {
	typedef std::u16string W; char16_t al[2] = {u'\xffff', u'a'}; std::vector<W> ts; sequences_upto(3, 2, [&](std::vector<int> const& v) { W w; for (int x : v) w += al[x]; ts.push_back(w); }); Guard g1, g2;
	for (W const& m : ts) for (W const& w : ts) {
		MC_STATE("wide " + str(m.size()) + "/" + str(w.size())); trace(); typedef sprout::basic_string_view<char16_t> V16;
		V16 k(g1.put(m.data(), m.size()), m.size()), o(g2.put(w.data(), w.size()), w.size());
		for (size_t p = 0; p <= m.size() + 1; ++p) { eq("wide find", (size_t)k.find(o, p), m.find(w, p)); eq("wide rfind", (size_t)k.rfind(o, p), m.rfind(w, p)); eq("wide find_first_of", (size_t)k.find_first_of(o, p), m.find_first_of(w, p)); eq("wide find_last_not_of", (size_t)k.find_last_not_of(o, p), m.find_last_not_of(w, p)); }
		eq("wide ==", k == o, m == w); eq("wide <", k < o, m < w); eq("wide compare", sgn(k.compare(o)), sgn(m.compare(w)));
	}
}
