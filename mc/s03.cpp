// S03: fixed-capacity strings: every mutation from every reachable content (breadth-first to closure), every search / compare / substring, construction, concatenation, stream input.
#include "mc.hpp"
#include "iters.hpp"
#include <sprout/string.hpp>
#include <sprout/string/shift_concat.hpp>
#include <sprout/string/shrink.hpp>
#include <sprout/string/stretch.hpp>
#include <sprout/array.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/container.hpp>
#include <sstream>
#include <iomanip>
#include <list>
#include <iterator>
using namespace mc;
typedef std::string S;
static std::string q(S const& s) { S r; for (char c : s) { if (c) r += c; else r += '0'; } return "\"" + r + "\""; }
template<class C> std::string sv(C const& c) { S r; for (auto i = c.begin(); i != c.end() && r.size() < 100; ++i) r += (char)*i; return r; }
// what an ordinary string does under the capacity: 0 done, 1 length_error, 2 out_of_range
template<class F> int outcome(F const& f) { try { f(); } catch (std::length_error const&) { return 1; } catch (std::out_of_range const&) { return 2; } catch (...) { return 3; } return 0; }
template<class B> void whole(B const& c, S const& m) {
	size_t n = m.size();
	ok("size() within max_size()", c.size() <= c.max_size());
	eq("contents", q(sv(c)), q(m)); eq("size()", (size_t)c.size(), n); eq("length()", (size_t)c.length(), n); eq("empty()", c.empty(), n == 0);
	ok("data()[size()] is the terminator", c.data()[n] == 0); ok("c_str()[size()] is the terminator", c.c_str()[n] == 0);
	for (size_t i = 0; i < n; ++i) { eq("data()", c.data()[i], m[i]); eq("operator[]", c[i], m[i]); }
}
// --- mutation histories
template<size_t N> struct St { sprout::basic_string<char, N> s; S m; };
template<size_t N> std::string key(St<N> const& x) { return x.m + "|" + std::string(x.s.data(), N + 1); }
static const char* AL = "ab\0";
static std::vector<S> words(size_t n, const char* al, int k) { std::vector<S> r; sequences_upto((int)n, k, [&](std::vector<int> const& v) { S s; for (int x : v) s += al[x]; r.push_back(s); }); return r; }
// run op on both; want is the standard string's result (throws out_of_range itself); the capacity decides the length_error
template<size_t N, class FI, class FM> bool both(const char* op, St<N>& x, FI const& fi, FM const& fm) {
	S m = x.m, before = x.m; int want = outcome([&] { fm(m); });
	if (want == 0 && m.size() > N) want = 1;
	int got = outcome([&] { fi(x.s); });
	eq(op, got, want);
	if (want == 0) x.m = m; else x.m = before;
	whole(x.s, x.m);
	return eq(op, q(sv(x.s)), q(x.m)) && got == want;
}
#define OP(name, IMPL, MODEL) ops.push_back(Op<St<N> >{name, [=](St<N>& x) { return both(intern(lit), x, [&](sprout::basic_string<char, N>& s) { IMPL; }, [&](S& s) { MODEL; }); }})
template<size_t N> void mutate(size_t W, int K) {
	std::vector<Op<St<N> > > ops; std::vector<S> ws = words(W, AL, K); S lit; const size_t np = (size_t)-1;
	bound("histories", "capacity " + str(N) + ", alphabet " + str(K) + ", to closure");
	typedef sprout::basic_string<char, N> B; typedef sprout::basic_string<char, 4> B4;
	for (int k = 0; k < K; ++k) {
		char c = AL[k]; S cs = q(S(1, c));
		lit = "push_back"; OP("push_back(" + cs + ")", s.push_back(c), s.push_back(c));
		lit = "= char"; OP("= " + cs, s = c, s = c);
		lit = "<<= char"; OP("<<= " + cs, s <<= c, s.push_back(c));
		lit = ">>= char"; OP(">>= " + cs, s >>= c, s.insert(s.begin(), c));
		for (size_t n : {(size_t)0, (size_t)1, (size_t)2, N, N + 1, np, np - 1}) {
			if (k == 2 && n > 2) continue;
			lit = "append(n, c)"; OP("append(" + str(n) + ", " + cs + ")", s.append(n, c), if (n > 100) throw std::length_error(""); s.append(n, c));
			lit = "assign(n, c)"; OP("assign(" + str(n) + ", " + cs + ")", s.assign(n, c), if (n > 100) throw std::length_error(""); s.assign(n, c));
			lit = "resize(n, c)"; OP("resize(" + str(n) + ", " + cs + ")", s.resize(n, c), if (n > 100) throw std::length_error(""); s.resize(n, c));
		}
	}
	for (size_t n : {(size_t)0, (size_t)1, (size_t)2, N, N + 1, np}) { lit = "resize(n)"; OP("resize(" + str(n) + ")", s.resize(n), if (n > 100) throw std::length_error(""); s.resize(n)); }
	lit = "clear"; OP("clear", s.clear(), s.clear());
	lit = "pop_back"; OP("pop_back", if (!s.empty()) s.pop_back(), if (!s.empty()) s.pop_back());
	lit = "self assign"; OP("s = s", s = s, s = s); lit = "s.assign(s)"; OP("s.assign(s)", s.assign(s), s.assign(s)); lit = "s.append(s)"; OP("s.append(s)", s.append(s), s.append(S(s)));
	lit = "s <<= s"; OP("s <<= s", s <<= s, s += S(s)); lit = "s >>= s"; OP("s >>= s", s >>= s, s = S(s) + s);
	for (size_t p : {0, 1, 2, 3, 4}) for (size_t n : {(size_t)0, (size_t)1, (size_t)2, np}) {
		lit = "s.assign(s, pos, n)"; OP("s.assign(s," + str(p) + "," + str(n) + ")", s.assign(s, p, n), s.assign(S(s), p, n));
		lit = "s.append(s, pos, n)"; OP("s.append(s," + str(p) + "," + str(n) + ")", s.append(s, p, n), s.append(S(s), p, n));
		lit = "s = s.substr(pos, n)"; OP("s = s.substr(" + str(p) + "," + str(n) + ")", s = s.substr(p, n), s = s.substr(p, n));
		lit = "erase through assign(range)"; OP("s.assign(begin + " + str(p) + ", end)", if (p <= s.size()) s.assign(s.data() + p, s.size() - p), if (p <= s.size()) s.erase(0, p));
	}
	for (S const& w : ws) {
		bool nul = w.find('\0') != S::npos; S ww = q(w);
		if (!nul) {
			lit = "append(c_str)"; OP("append(" + ww + ")", s.append(w.c_str()), s.append(w)); lit = "assign(c_str)"; OP("assign(" + ww + ")", s.assign(w.c_str()), s.assign(w));
			lit = "= c_str"; OP("= " + ww, s = w.c_str(), s = w); lit = "<<= c_str"; OP("<<= " + ww, s <<= w.c_str(), s += w); lit = ">>= c_str"; OP(">>= " + ww, s >>= w.c_str(), s = w + s);
		}
		lit = "append(ptr, n)"; OP("append(" + ww + ", n)", s.append(w.data(), w.size()), s.append(w)); lit = "assign(ptr, n)"; OP("assign(" + ww + ", n)", s.assign(w.data(), w.size()), s.assign(w));
		lit = "append(forward range)"; OP("append(list " + ww + ")", std::list<char> l(w.begin(), w.end()); s.append(l.begin(), l.end()), s.append(w)); lit = "assign(forward range)"; OP("assign(list " + ww + ")", std::list<char> l(w.begin(), w.end()); s.assign(l.begin(), l.end()), s.assign(w));
		lit = "append(input range)"; OP("append(stream " + ww + ")", std::istringstream l(w); s.append(std::istreambuf_iterator<char>(l), std::istreambuf_iterator<char>()), s.append(w)); lit = "assign(input range)"; OP("assign(stream " + ww + ")", std::istringstream l(w); s.assign(std::istreambuf_iterator<char>(l), std::istreambuf_iterator<char>()), s.assign(w));
		B4 o = w.size() <= 4 ? B4(w.begin(), w.end()) : B4();
		if (w.size() <= 4) {
			lit = "append(string)"; OP("append(str " + ww + ")", s.append(o), s.append(w)); lit = "assign(string)"; OP("assign(str " + ww + ")", s.assign(o), s.assign(w)); lit = "= string"; OP("= str " + ww, s = o, s = w);
			lit = "<<= string"; OP("<<= str " + ww, s <<= o, s += w); lit = ">>= string"; OP(">>= str " + ww, s >>= o, s = w + s);
			for (size_t p = 0; p <= w.size() + 1; ++p) for (size_t n : {(size_t)0, (size_t)1, np}) { lit = "append(string, pos, n)"; OP("append(str " + ww + "," + str(p) + "," + str(n) + ")", s.append(o, p, n), s.append(w, p, n)); lit = "assign(string, pos, n)"; OP("assign(str " + ww + "," + str(p) + "," + str(n) + ")", s.assign(o, p, n), s.assign(w, p, n)); }
			if (w.size() <= N) { B same(w.begin(), w.end()); lit = "= same capacity"; OP("= same " + ww, s = same, s = w); lit = "swap"; OP("swap " + ww, B t(same); s.swap(t), s = w); lit = "swap other side"; OP("swap2 " + ww, B t(s); B u(same); sprout::swap(u, t); s = u, (void)s); }
		}
	}
	lit = "append({list})"; OP("append({a,b})", (s.append({'a', 'b'})), (s.append({'a', 'b'}))); lit = "assign({list})"; OP("assign({b,a})", (s.assign({'b', 'a'})), (s.assign({'b', 'a'}))); lit = "= {list}"; OP("= {a,a}", (s = {'a', 'a'}), (s = {'a', 'a'}));
	lit = "<<= {list}"; OP("<<= {a,b}", (s <<= {'a', 'b'}), (s += {'a', 'b'})); lit = ">>= {list}"; OP(">>= {b,a}", (s >>= {'b', 'a'}), s = "ba" + s);
	lit = "write through iterator"; OP("reverse in place", std::reverse(s.data(), s.data() + s.size()), std::reverse(s.begin(), s.end()));
	for (S in : {"", "a", " a", "ab b", "bab", "abab b", " "}) for (int wd : {0, 1, 2}) {
		lit = "stream extraction"; OP("cin >> from \"" + in + "\" width " + str(wd), std::istringstream is(in); is.width(wd); is >> s; eq("stream state after extraction", is.fail(), N == 0 || in.empty() || in == " "),
			std::istringstream is(in); size_t lim = wd > 0 && (size_t)wd < N ? wd : N; S t; is >> std::setw(100) >> t; if (t.empty()) t = ""; s = t.substr(0, lim));
	}
	St<N> init; bfs(init, ops, key<N>, 100, 100000);
}
MC_SECTION(s03_mutate3) { mutate<3>(4, 3); }
MC_SECTION(s03_mutate2) { mutate<2>(3, 3); }
MC_SECTION(s03_mutate1) { mutate<1>(3, 2); }
MC_SECTION(s03_mutate0) { mutate<0>(2, 2); }
// --- observers
template<class B> void access(B& c, S const& m) {
	size_t n = m.size(); B const& k = c;
	eq("begin..end", q(sv(c)), q(m)); eq("const begin..end", q(sv(k)), q(m));
	S r, r2, r3, m2(m.rbegin(), m.rend()); for (auto i = c.rbegin(); i != c.rend(); ++i) r += *i; for (auto i = k.rbegin(); i != k.rend(); ++i) r2 += *i; for (auto i = c.crbegin(); i != c.crend(); ++i) r3 += *i;
	eq("rbegin..rend", q(r), q(m2)); eq("const rbegin..rend", q(r2), q(m2)); eq("crbegin..crend", q(r3), q(m2));
	S cb; for (auto i = c.cbegin(); i != c.cend(); ++i) cb += *i; eq("cbegin..cend", q(cb), q(m));
	ok("capacity() == max_size()", c.capacity() == c.max_size());
	for (size_t i = 0; i < n; ++i) { eq("at", c.at(i), m[i]); eq("const at", k.at(i), m[i]); eq("nth", (char)*c.nth(i), m[i]); eq("const nth", (char)*k.nth(i), m[i]); eq("index_of", (size_t)c.index_of(c.nth(i)), i); eq("const index_of", (size_t)k.index_of(k.nth(i)), i); eq("c_array", c.c_array()[i], m[i]); }
	eq("[size()]", k[n], '\0');
	for (size_t i : {n, n + 1, (size_t)-1}) { eq("at out of range", outcome([&] { (void)c.at(i); }), 2); eq("const at out of range", outcome([&] { (void)k.at(i); }), 2); eq("nth out of range", outcome([&] { (void)c.nth(i); }), 2); }
	if (n) { eq("front", c.front(), m[0]); eq("back", c.back(), m[n - 1]); eq("const front", k.front(), m[0]); eq("const back", k.back(), m[n - 1]); }
	eq("conversion to std::string", q([&] { auto z = (std::basic_string<char, sprout::char_traits<char> >)k; return S(z.data(), z.size()); }()), q(m)); sprout::basic_string_view<char> v = k; eq("conversion to string_view", q(S(v.begin(), v.end())), q(m));
	for (size_t p = 0; p <= n + 1; ++p) for (size_t l : {(size_t)0, (size_t)1, (size_t)2, n, (size_t)-1}) {
		char b1[8] = {1, 1, 1, 1, 1, 1, 1, 1}, b2[8] = {1, 1, 1, 1, 1, 1, 1, 1}; size_t g1 = 99, g2 = 99;
		int o1 = outcome([&] { g1 = k.copy(b1, l, p); }), o2 = outcome([&] { g2 = m.copy(b2, l, p); });
		eq("copy: outcome", o1, o2); eq("copy: count", g1, g2); eq("copy: characters", S(b1, 8), S(b2, 8));
		S s2; B s1; int p1 = outcome([&] { s1 = k.substr(p, l); }), p2 = outcome([&] { s2 = m.substr(p, l); });
		eq("substr: outcome", p1, p2); if (!p2) eq("substr", q(sv(s1)), q(s2));
		B c1; S c2; int q1 = outcome([&] { c1 = B(k, p, l); }), q2 = outcome([&] { c2 = S(m, p, l); });
		eq("basic_string(str, pos, n): outcome", q1, q2); if (!q2) eq("basic_string(str, pos, n)", q(sv(c1)), q(c2));
	}
}
static int sgn(int x) { return (x > 0) - (x < 0); }
template<size_t N> void access_all(const char* al, int k) {
	bound("contents", "every content of capacity " + str(N) + " over " + str(k) + " letters");
	for (S const& w : words(N, al, k)) { MC_STATE("string<" + str(N) + "> " + q(w)); trace(); sprout::basic_string<char, N> c(w.begin(), w.end()); whole(c, w); access(c, w); }
}
MC_SECTION(s03_access) { access_all<4>("ab\0", 3); access_all<1>("ab\0", 3); access_all<2>("\xff\x7f", 2); }
typedef sprout::basic_string<char, 5> B5;
#define FIND(f, dflt) \
	for (size_t p : ps) { eq(#f "(str, pos)", (size_t)k.f(o, p), m.f(w, p)); eq(#f "(ptr, pos, n)", (size_t)k.f(w.data(), p, w.size()), m.f(w.data(), p, w.size())); eq(#f "(iterator, pos, n)", (size_t)k.f(o.begin(), p, w.size()), m.f(w, p)); if (!nul) { eq(#f "(c_str, pos)", (size_t)k.f(w.c_str(), p), m.f(w, p)); eq(#f "(iterator, pos)", (size_t)k.f(o.begin(), p), m.f(w, p)); } } \
	eq(#f "(str)", (size_t)k.f(o), m.f(w)); if (!nul) { eq(#f "(c_str)", (size_t)k.f(w.c_str()), m.f(w)); eq(#f "(iterator)", (size_t)k.f(o.begin()), m.f(w)); }
#define FINDC(f) for (char c : {'a', 'b', 'c', '\0'}) { for (size_t p : ps) eq(#f "(char, pos)", (size_t)k.f(c, p), m.f(c, p)); eq(#f "(char)", (size_t)k.f(c), m.f(c)); }
void search(const char* al, int kk, size_t ln, size_t wn) {
	bound("searches", "texts up to " + str(ln) + ", needles up to " + str(wn) + " over " + str(kk) + " letters, every position");
	std::vector<S> ts = words(ln, al, kk), ws = words(wn, al, kk);
	for (S const& m : ts) {
		B5 k0(m.begin(), m.end()); B5 const& k = k0; size_t n = m.size();
		std::vector<size_t> ps; for (size_t i = 0; i <= n + 2; ++i) ps.push_back(i); ps.push_back((size_t)-1); ps.push_back((size_t)-2);
		{ MC_STATE("text " + q(m)); trace(); FINDC(find) FINDC(rfind) FINDC(find_first_of) FINDC(find_last_of) FINDC(find_first_not_of) FINDC(find_last_not_of) }
		for (S const& w : ws) {
			MC_STATE("text " + q(m) + " needle " + q(w)); trace();
			sprout::basic_string<char, 4> o0(w.begin(), w.end()); sprout::basic_string<char, 4> const& o = o0; bool nul = w.find('\0') != S::npos;
			FIND(find, 0) FIND(rfind, -1) FIND(find_first_of, 0) FIND(find_last_of, -1) FIND(find_first_not_of, 0) FIND(find_last_not_of, -1)
			int cw = sgn(m.compare(w));
			eq("compare(str)", sgn(k.compare(o)), cw); if (!nul) { eq("compare(c_str)", sgn(k.compare(w.c_str())), cw); eq("compare(iterator)", sgn(k.compare(o.begin())), cw); }
			eq("==", k == o, m == w); eq("!=", k != o, m != w); eq("<", k < o, m < w); eq(">", k > o, m > w); eq("<=", k <= o, m <= w); eq(">=", k >= o, m >= w);
			if (!nul) { const char* z = w.c_str(); eq("== ptr", k == z, m == w); eq("!= ptr", k != z, m != w); eq("< ptr", k < z, m < w); eq("> ptr", k > z, m > w); eq("<= ptr", k <= z, m <= w); eq(">= ptr", k >= z, m >= w);
				eq("ptr ==", z == k, w == m); eq("ptr !=", z != k, w != m); eq("ptr <", z < k, w < m); eq("ptr >", z > k, w > m); eq("ptr <=", z <= k, w <= m); eq("ptr >=", z >= k, w >= m); }
			for (size_t p = 0; p <= n + 1; ++p) for (size_t l : {(size_t)0, (size_t)1, (size_t)2, (size_t)-1}) {
				int r1 = 9, r2 = 9; int o1 = outcome([&] { r1 = sgn(k.compare(p, l, o)); }), o2 = outcome([&] { r2 = sgn(m.compare(p, l, w)); }); eq("compare(pos, n, str)", str(o1) + str(r1), str(o2) + str(r2));
				r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, w.data(), w.size())); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w.data(), w.size())); }); eq("compare(pos, n, ptr, n2)", str(o1) + str(r1), str(o2) + str(r2));
				if (!nul) { r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, w.c_str())); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w.c_str())); }); eq("compare(pos, n, c_str)", str(o1) + str(r1), str(o2) + str(r2)); r1 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, o.begin())); }); eq("compare(pos, n, iterator)", str(o1) + str(r1), str(o2) + str(r2)); }
				for (size_t p2 = 0; p2 <= w.size() + 1; ++p2) for (size_t l2 : {(size_t)0, (size_t)1, (size_t)-1}) { r1 = r2 = 9; o1 = outcome([&] { r1 = sgn(k.compare(p, l, o, p2, l2)); }); o2 = outcome([&] { r2 = sgn(m.compare(p, l, w, p2, l2)); }); eq("compare(pos, n, str, pos2, n2)", str(o1) + str(r1), str(o2) + str(r2)); }
			}
		}
	}
}
MC_SECTION(s03_search) { search("ab", 2, 5, 3); }
MC_SECTION(s03_search_nul) { search("a\0\xff", 3, 3, 2); }
MC_SECTION(s03_search_deep) { if (thorough()) search("abc", 3, 5, 4); else search("ab", 2, 4, 4); }
// --- construction, conversion, concatenation
template<size_t N> void construct(S const& w) {
	typedef sprout::basic_string<char, N> B; bool nul = w.find('\0') != S::npos; bool fits = w.size() <= N; B r; int want = fits ? 0 : 1;
	// every way to build; what does not fit throws length_error
	#define CT(name, expr, wanted) do { int o = outcome([&] { r = B(); r = expr; }); eq(name, o, want); if (!o && !want) { whole(r, wanted); eq(name, q(sv(r)), q(wanted)); } } while (0)
	CT("basic_string(random access range)", B(w.begin(), w.end()), w); { std::list<char> l(w.begin(), w.end()); CT("basic_string(forward range)", B(l.begin(), l.end()), w); }
	{ std::istringstream is(w); std::istreambuf_iterator<char> f(is), e; CT("basic_string(input range)", B(f, e), w); }
	if (!nul) { CT("basic_string(c_str)", B(w.c_str()), w); CT("from_c_str(c_str)", B::from_c_str(w.c_str()), w); CT("basic_string(ptr, n)", B(w.data(), w.size()), w); CT("from_c_str(std::string)", B::from_c_str(std::string(w).c_str(), w.size()), w); CT("string_from_c_str", sprout::string_from_c_str<N>(w.c_str()), w); CT("string_from_c_str(ptr, n)", sprout::string_from_c_str<N>(w.data(), w.size()), w); }
	if (!w.empty() && w == S(w.size(), w[0])) { CT("basic_string(n, c)", B(w.size(), w[0]), w); }
	if (!nul) for (size_t n = 0; n <= w.size() + 1; ++n) { S t = w.substr(0, n); int sw = want; want = t.size() <= N ? 0 : 1; CT("basic_string(ptr, prefix)", B(w.c_str(), n), t); want = sw; }
	#undef CT
}
template<size_t M> void literal(const char (&a)[M], S const& t) {
	typedef sprout::basic_string<char, 5> B; MC_STATE("array " + q(S(a, M))); trace();
	whole(B(a), t); for (size_t n = 0; n <= M; ++n) whole(B(a, n), t.substr(0, n)); auto z = sprout::to_string(a); whole(z, t); ok("to_string(array) capacity", z.max_size() == M - 1);
	whole(sprout::stretch<5>(a), t); whole(sprout::shrink<2>(a), t.substr(0, 2));
}
MC_SECTION(s03_construct) {
	for (S const& w : words(4, "ab\0", 3)) { MC_STATE("from " + q(w)); trace(); construct<0>(w); construct<1>(w); construct<2>(w); construct<3>(w); construct<4>(w); }
	literal("", ""); literal("a", "a"); literal("ab", "ab"); literal("abc", "abc"); literal("a\0c", "a"); literal("\0bc", "");
	{ MC_STATE("initializer lists"); typedef sprout::basic_string<char, 3> B; whole(B{}, ""); whole(B{'a'}, "a"); whole(B{'a', 'b', 'c'}, "abc"); eq("initializer list too long", outcome([] { B x{'a', 'b', 'c', 'd'}; }), 1); }
	{ MC_STATE("make_string"); whole(sprout::make_string<char>(), ""); whole(sprout::make_string<char>('a', 'b'), "ab"); whole(sprout::make_string('a', 'b', 'c'), "abc"); whole(sprout::make_string<char>('a', '\0', 'b'), "a"); }
}
template<size_t A, size_t B, class X> void cat2(S const& a, S const& b, X) {
	sprout::basic_string<char, A> x(a.begin(), a.end()); sprout::basic_string<char, B> y(b.begin(), b.end()); MC_STATE("concat " + q(a) + " (" + str(A) + ") " + q(b) + " (" + str(B) + ")"); trace();
	auto s = x + y; whole(s, a + b); ok("concat capacity", s.max_size() == A + B);
	whole(x + 'z', a + "z"); whole('z' + x, "z" + a); whole(x + "yz", a + "yz"); whole("yz" + x, "yz" + a); whole(x + "", a); whole("" + x, a);
	whole(sprout::stretch<A + 2>(x), a); whole(sprout::shrink<1>(x), a.substr(0, 1)); { sprout::basic_string<char, 2> t = sprout::shrink(x); whole(t, a.substr(0, 2)); } { sprout::basic_string<char, A> const& t = sprout::shrink(x); whole(t, a); }
	#define SH(name, expr, want) do { S wt = want; sprout::basic_string<char, A> r; int o = outcome([&] { r = expr; }); eq(name, o, wt.size() <= A ? 0 : 1); if (!o && wt.size() <= A) whole(r, wt); } while (0)
	SH("string << string", x << y, a + b); SH("string >> string", x >> y, b + a); SH("string << char", x << 'z', a + "z"); SH("string >> char", x >> 'z', "z" + a);
	if (b.find('\0') == S::npos) { SH("string << ptr", x << b.c_str(), a + b); SH("string >> ptr", x >> b.c_str(), b + a); }
	SH("string << {list}", (sprout::operator<<(x, std::initializer_list<char>{'y', 'z'})), a + "yz"); SH("string >> {list}", (sprout::operator>>(x, std::initializer_list<char>{'y', 'z'})), "yz" + a);
	#undef SH
	{ std::ostringstream os; os << x; eq("stream insertion", q(os.str()), q(a)); }
}
MC_SECTION(s03_concat) {
	for (S const& a : words(3, "ab\0", 3)) for (S const& b : words(2, "ab\0", 3)) { cat2<3, 2>(a, b, 0); cat2<5, 3>(a, b, 0); }
}
// wide characters share the code: the same searches on char32_t
MC_SECTION(s03_wide) {
	typedef std::u32string W; char32_t al[2] = {U'\x10ffff', U'a'}; std::vector<W> ts; sequences_upto(3, 2, [&](std::vector<int> const& v) { W w; for (int x : v) w += al[x]; ts.push_back(w); });
	for (W const& m : ts) for (W const& w : ts) {
		MC_STATE("wide " + str(m.size()) + "/" + str(w.size())); trace();
		sprout::basic_string<char32_t, 4> k(m.begin(), m.end()); sprout::basic_string<char32_t, 3> o(w.begin(), w.end());
		for (size_t p = 0; p <= m.size() + 1; ++p) { eq("wide find", (size_t)k.find(o, p), m.find(w, p)); eq("wide rfind", (size_t)k.rfind(o, p), m.rfind(w, p)); eq("wide find_first_of", (size_t)k.find_first_of(o, p), m.find_first_of(w, p)); eq("wide find_last_not_of", (size_t)k.find_last_not_of(o, p), m.find_last_not_of(w, p)); }
		eq("wide ==", k == o, m == w); eq("wide <", k < o, m < w); eq("wide compare", sgn(k.compare(o)), sgn(m.compare(w)));
		auto s = k + o; ok("wide concat", W(s.data(), s.size()) == m + w);
	}
}
