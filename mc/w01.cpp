// W01: the parsers of sprout::weed accept their grammar, end after the match and deliver its attribute.
// Oracle: a recogniser for parsing expression grammars over a run-time tree of the same expression.
#include "mc.hpp"
#include <sprout/weed.hpp>
#include <sprout/weed/parser/directive/replace.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <memory>
#include <climits>
using namespace mc; namespace w = sprout::weed; typedef std::string S;
#ifndef PART
#define PART 0
#endif
enum Kind { LIT, SET, ANY, STR, EPS, EOI, EOL, SEQ, ALT, DIFF, NOT, AND, OPT, STAR, PLUS, LIST, OMIT, REPL, REP, SAME };
enum { U, C, Z, X }; // attribute: none, one character, characters, something else
struct Node; typedef std::shared_ptr<Node> N;
struct Node { Kind k; S s; std::vector<N> c; size_t lim = -1, cnt = -1; int cat = 0; S name; };
struct Out { bool ok; size_t pos; S v; };
struct Loop {};
static Out run(N const& n, S const& in, size_t p) {
	auto fail = Out{false, p, ""};
	switch (n->k) {
	case LIT: return in.compare(p, n->s.size(), n->s) == 0 ? Out{true, p + n->s.size(), ""} : fail;
	case STR: return in.compare(p, n->s.size(), n->s) == 0 ? Out{true, p + n->s.size(), n->s} : fail;
	case SET: return p < in.size() && n->s.find(in[p]) != S::npos ? Out{true, p + 1, S(1, in[p])} : fail;
	case ANY: return p < in.size() ? Out{true, p + 1, S(1, in[p])} : fail;
	case EPS: return Out{true, p, ""};
	case EOI: return p == in.size() ? Out{true, p, ""} : fail;
	case EOL: return in.compare(p, 2, "\r\n") == 0 ? Out{true, p + 2, ""} : p < in.size() && (in[p] == '\n' || in[p] == '\r') ? Out{true, p + 1, ""} : fail;
	case SEQ: { Out a = run(n->c[0], in, p); if (!a.ok) return fail; Out b = run(n->c[1], in, a.pos); return b.ok ? Out{true, b.pos, a.v + b.v} : fail; }
	case ALT: { Out a = run(n->c[0], in, p); if (a.ok) return a; Out b = run(n->c[1], in, p); return b.ok ? b : fail; }
	case DIFF: { Out a = run(n->c[0], in, p); if (!a.ok || run(n->c[1], in, p).ok) return fail; return a; }
	case NOT: return run(n->c[0], in, p).ok ? fail : Out{true, p, ""};
	case AND: return run(n->c[0], in, p).ok ? Out{true, p, ""} : fail;
	case OPT: { Out a = run(n->c[0], in, p); return a.ok ? Out{true, a.pos, ""} : Out{true, p, ""}; }
	case OMIT: { Out a = run(n->c[0], in, p); return a.ok ? Out{true, a.pos, ""} : fail; }
	case REPL: { Out a = run(n->c[0], in, p); return a.ok ? Out{true, a.pos, n->s} : fail; }
	case SAME: { Out a = run(n->c[0], in, p); return a.ok ? a : fail; }
	case REP: { std::vector<S> v; size_t q = p; bool inf = n->lim == size_t(-1); for (size_t k = 0; k < n->lim; ++k) { Out a = run(n->c[0], in, q); if (!a.ok) break; if (inf && a.pos == q) throw Loop(); q = a.pos; v.push_back(a.v); }
		if (n->cnt == size_t(-1) ? !inf && v.size() < n->lim : v.size() < n->cnt) return fail; S t; for (auto& x : v) t += x; return Out{true, q, t}; }
	case STAR: case PLUS: case LIST: {
		std::vector<S> v; size_t q = p, e = p; bool more = true, stop = n->lim != size_t(-1) && n->cat == w::limited::stopover;
		while (more) { Out a = run(n->c[0], in, e); if (!a.ok) break; if (!stop && a.pos == q && !v.empty()) throw Loop(); v.push_back(a.v); q = e = a.pos; if (stop && v.size() == n->lim) break;
			if (n->k == LIST) { Out b = run(n->c[1], in, q); if (!b.ok) more = false; e = b.pos; } else if (!stop && a.pos == p) throw Loop(); }
		if (v.empty() && n->k != STAR) return fail;
		if (n->lim != size_t(-1) && v.size() > n->lim) { if (n->cat == w::limited::circular) v.erase(v.begin(), v.end() - n->lim); else v.resize(n->lim); }
		S t; for (auto& x : v) t += x; return Out{true, q, t}; }
	}
	return fail;
}
// attributes, written one after another
inline S flat(w::unused const&) { return ""; }
inline S flat(char c) { return S(1, c); }
template<size_t M> S flat(sprout::basic_string<char, M> const& s) { return S(s.begin(), s.end()); }
template<class T, size_t M> S flat(sprout::array<T, M> const& a) { S r; for (auto& x : a) r += flat(x); return r; }
template<class P, int K> struct E { P p; N n; };
template<int K, class P> E<P, K> mk(P const& p, Kind k, S const& name, S const& s = "", std::vector<N> c = {}) { N n = std::make_shared<Node>(); n->k = k; n->s = s; n->c = c; n->name = name; return E<P, K>{p, n}; }
static std::vector<S> inputs(size_t len, S const& abc) { std::vector<S> r; sequences_upto(len, abc.size(), [&](std::vector<int> const& v) { S s; for (int i : v) s += abc[i]; r.push_back(s); }); return r; }
static std::vector<S> const& texts() { static std::vector<S> t = inputs(thorough() ? 7 : 5, "abc"); return t; }
static int nexpr = 0;
template<class P, int K> void judge(E<P, K> const& e, std::vector<S> const& in) {
	++nexpr; for (S const& s : in) {
		Out o; try { o = run(e.n, s, 0); } catch (Loop&) { continue; } // a repetition of an empty match does not end
		MC_STATE("weed " + e.n->name + " on \"" + s + "\""); trace();
		auto r = w::parse(s.begin(), s.end(), e.p); eq("success", r.success(), o.ok); eq("end", size_t(r.current() - s.begin()), o.pos);
		if (o.ok) eq("attribute", flat(r.attr()), o.v); }
}
// unary forms
template<int K> struct rep_kind { static const int value = K == U ? U : Z; };
template<size_t L, class P, int K> auto lim(E<P, K> const& e, w::limited::category c) { auto l = w::lim<L>(e.p, c); return l; }
inline S cname(int c) { return c == w::limited::discard ? "discard" : c == w::limited::circular ? "circular" : "stopover"; }
template<class R> R with(R r, size_t l, int c, size_t n = -1) { r.n->lim = l; r.n->cat = c; r.n->cnt = n; return r; }
template<size_t L, class P, int K> auto star(E<P, K> const& e, w::limited::category c) { return with(mk<rep_kind<K>::value>(*w::lim<L>(e.p, c), STAR, "*lim<" + str(L) + "," + cname(c) + ">(" + e.n->name + ")", "", {e.n}), L, c); }
template<size_t L, class P, int K> auto plus(E<P, K> const& e, w::limited::category c) { return with(mk<rep_kind<K>::value>(+w::lim<L>(e.p, c), PLUS, "+lim<" + str(L) + "," + cname(c) + ">(" + e.n->name + ")", "", {e.n}), L, c); }
template<size_t L, class P, int K, class Q, int J> auto list(E<P, K> const& e, E<Q, J> const& f, w::limited::category c) { return with(mk<rep_kind<K>::value>(w::lim<L>(e.p, c) % f.p, LIST, "(lim<" + str(L) + "," + cname(c) + ">(" + e.n->name + ") % " + f.n->name + ")", "", {e.n, f.n}), L, c); }
template<size_t L, class P, int K> auto rep(E<P, K> const& e, size_t n) { return with(mk<rep_kind<K>::value>(w::repeat(n)[w::lim<L>(e.p)], REP, "repeat(" + str(n) + ")[lim<" + str(L) + ">(" + e.n->name + ")]", "", {e.n}), L, 0, n); }
template<size_t L, class P, int K> auto repall(E<P, K> const& e) { return with(mk<rep_kind<K>::value>(w::repeat[w::lim<L>(e.p)], REP, "repeat[lim<" + str(L) + ">(" + e.n->name + ")]", "", {e.n}), L, 0); }
template<class P, int K> auto no(E<P, K> const& e) { return mk<U>(!e.p, NOT, "!" + e.n->name, "", {e.n}); }
template<class P, int K> auto ahead(E<P, K> const& e) { return mk<U>(&e.p, AND, "&" + e.n->name, "", {e.n}); }
template<class P, int K> auto omit(E<P, K> const& e) { return mk<U>(w::omit[e.p], OMIT, "omit[" + e.n->name + "]", "", {e.n}); }
template<class P, int K> auto repl(E<P, K> const& e) { return mk<C>(w::replace('z')[e.p], REPL, "replace('z')[" + e.n->name + "]", "z", {e.n}); }
template<class P> auto opt(E<P, U> const& e) { return mk<U>(-e.p, OPT, "-" + e.n->name, "", {e.n}); }
template<class P> auto star(E<P, U> const& e) { return mk<U>(*e.p, STAR, "*" + e.n->name, "", {e.n}); }
template<class P> auto plus(E<P, U> const& e) { return mk<U>(+e.p, PLUS, "+" + e.n->name, "", {e.n}); }
template<class P, class Q, int J> auto list(E<P, U> const& e, E<Q, J> const& f) { return mk<U>(e.p % f.p, LIST, "(" + e.n->name + " % " + f.n->name + ")", "", {e.n, f.n}); }
template<class P> auto rep(E<P, U> const& e, size_t n) { return with(mk<U>(w::repeat(n)[e.p], REP, "repeat(" + str(n) + ")[" + e.n->name + "]", "", {e.n}), -1, 0, n); }
template<class P> auto repall(E<P, U> const& e) { return with(mk<U>(w::repeat[e.p], REP, "repeat[" + e.n->name + "]", "", {e.n}), -1, 0); }
// binary forms
template<class P, int K, class Q, int J> auto seq(E<P, K> const& a, E<Q, J> const& b) { return mk<K == U ? J : J == U ? K : Z>(a.p >> b.p, SEQ, "(" + a.n->name + " >> " + b.n->name + ")", "", {a.n, b.n}); }
template<class P, int K, class Q, int J> auto alt(E<P, K> const& a, E<Q, J> const& b) { return mk<K == J ? K : K + J == U + Z ? (K == C && J == C ? C : X) : Z>(a.p | b.p, ALT, "(" + a.n->name + " | " + b.n->name + ")", "", {a.n, b.n}); }
template<class P, int K, class Q, int J> auto diff(E<P, K> const& a, E<Q, J> const& b) { return mk<K>(a.p - b.p, DIFF, "(" + a.n->name + " - " + b.n->name + ")", "", {a.n, b.n}); }
// visit f with every form; forms with an attribute outside U, C, Z stay at the top
struct Top { template<class P, int K> void operator()(E<P, K> const& e) const { judge(e, texts()); } };
template<class F> struct Inner { F f; template<class P> void operator()(E<P, X> const&) const {} template<class P, int K> void operator()(E<P, K> const& e) const { f(e); } };
template<class F> Inner<F> inner(F f) { return Inner<F>{f}; }
template<class F, class P> void unary_u(E<P, U> const& e, F f) { f(opt(e)); f(star(e)); f(plus(e)); }
template<class F, class P, int K> void unary_u(E<P, K> const&, F) {}
template<class F, class P, int K> void unary_some(E<P, K> const& e, F f) { unary_u(e, f); f(no(e)); f(ahead(e)); f(omit(e)); f(star<2>(e, w::limited::discard)); f(plus<2>(e, w::limited::circular)); }
template<class F, class P> void unary_ru(E<P, U> const& e, F f) { for (size_t n = 0; n < 4; ++n) f(rep(e, n)); f(repall(e)); }
template<class F, class P, int K> void unary_ru(E<P, K> const&, F) {}
template<class F, class P, int K> void unary_all(E<P, K> const& e, F f) { unary_some(e, f); unary_ru(e, f); f(repl(e));
	for (int c = 0; c < 3; ++c) { auto k = (w::limited::category)c; f(star<1>(e, k)); f(star<2>(e, k)); f(star<3>(e, k)); f(plus<1>(e, k)); f(plus<2>(e, k)); f(plus<3>(e, k)); }
	for (size_t n = 0; n < 4; ++n) { if (n < 2) f(rep<1>(e, n)); if (n < 3) f(rep<2>(e, n)); f(rep<3>(e, n)); } f(repall<1>(e)); f(repall<2>(e)); f(repall<3>(e)); }
template<class F, class P, class Q, int J> void list_u(E<P, U> const& a, E<Q, J> const& b, F f) { f(list(a, b)); }
template<class F, class P, int K, class Q, int J> void list_u(E<P, K> const&, E<Q, J> const&, F) {}
template<class F, class P, int K, class Q, int J> void binary_some(E<P, K> const& a, E<Q, J> const& b, F f) { f(seq(a, b)); f(alt(a, b)); f(diff(a, b)); f(list<2>(a, b, w::limited::discard)); }
template<class F, class P, int K, class Q, int J> void binary_all(E<P, K> const& a, E<Q, J> const& b, F f) { binary_some(a, b, f); list_u(a, b, f);
	for (int c = 0; c < 3; ++c) { auto k = (w::limited::category)c; f(list<1>(a, b, k)); f(list<2>(a, b, k)); f(list<3>(a, b, k)); } }
static auto lit_a() { return mk<U>(w::lit('a'), LIT, "'a'", "a"); }
static auto lit_ab() { return mk<U>(w::lit("ab"), LIT, "\"ab\"", "ab"); }
static auto ch_b() { return mk<C>(w::char_('b'), SET, "char_('b')", "b"); }
static auto ch_ab() { return mk<C>(w::char_("ab"), SET, "char_(\"ab\")", "ab"); }
static auto ch_rng() { return mk<C>(w::char_('b', 'c'), SET, "char_('b','c')", "bc"); }
static auto ch_any() { return mk<C>(w::char_, ANY, "char_"); }
static auto str_ab() { return mk<Z>(w::string("ab"), STR, "string(\"ab\")", "ab"); }
static auto str_b() { return mk<Z>(w::string(sprout::to_string("b")), STR, "string(\"b\")", "b"); }
static auto lit_s() { return mk<U>(w::lit(sprout::to_string("ba")), LIT, "lit(\"ba\")", "ba"); }
static auto eps() { return mk<U>(w::eps, EPS, "eps"); }
static auto eoi() { return mk<U>(w::eoi, EOI, "eoi"); }
template<class F> void few(F f) { f(lit_a()); f(ch_ab()); f(str_ab()); f(eps()); }
template<class F> void three(F f) { f(lit_a()); f(ch_b()); f(str_ab()); }
template<class F> void every(F f) { few(f); f(lit_ab()); f(ch_b()); f(ch_rng()); f(ch_any()); f(str_b()); f(lit_s()); f(eoi()); }
#if PART == 1
MC_SECTION(terminals_and_single_operators) { bound("expressions", "11 terminals, every unary form, every binary form of 5 terminals");
	every(Top()); every([](auto const& e) { unary_all(e, Top()); });
	few([](auto const& a) { few([&](auto const& b) { binary_all(a, b, Top()); }); });
}
#endif
#if PART == 2
MC_SECTION(unary_of_binary) { three([](auto const& a) { few([&](auto const& b) { binary_some(a, b, inner([](auto const& e) { unary_some(e, Top()); })); }); }); }
#endif
#if PART == 3
MC_SECTION(binary_of_unary) { few([](auto const& a) { unary_some(a, [&](auto const& e) { three([&](auto const& b) { binary_some(e, b, Top()); }); }); }); }
#endif
#if PART == 4
MC_SECTION(binary_with_unary_right) { few([](auto const& a) { unary_some(a, [&](auto const& e) { three([&](auto const& b) { binary_some(b, e, Top()); }); }); }); }
#endif
#if PART == 5
MC_SECTION(binary_of_binary_left) { three([](auto const& a) { three([&](auto const& b) { binary_some(a, b, inner([&](auto const& e) { three([&](auto const& c) { binary_some(e, c, Top()); }); })); }); }); }
#endif
#if PART == 6
MC_SECTION(binary_of_binary_right) { three([](auto const& a) { three([&](auto const& b) { binary_some(a, b, inner([&](auto const& e) { three([&](auto const& c) { binary_some(c, e, Top()); }); })); }); }); }
#endif

#if PART == 7
// numbers: every text over the alphabet, and the neighbourhood of every limit
typedef __int128 Big;
static int digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
template<class T> S show(T t) { Big b = t; if (b == 0) return "0"; bool n = b < 0; S r; if (n) b = -b; while (b) { r.insert(r.begin(), char('0' + int(b % 10))); b /= 10; } return n ? "-" + r : r; }
static S digits(Big b, int radix) { S r; do { r.insert(r.begin(), "0123456789abcdef"[int(b % radix)]); b /= radix; } while (b); return r; }
template<class T> struct Num { bool ok; size_t pos; Big v; bool judged; };
template<class T> Num<T> number(S const& s, size_t p, int radix, size_t min, size_t max, bool sign) {
	size_t q = p; bool neg = false; if (sign && q < s.size() && (s[q] == '+' || s[q] == '-')) neg = s[q++] == '-';
	Big v = 0; size_t n = 0; while (n < max && q < s.size() && digit(s[q]) < radix) { if (v < (Big(1) << 100)) v = v * radix + digit(s[q]); ++q; ++n; }
	if (n < min) return {false, p, 0, true}; if (neg) v = -v;
	return {true, q, v, v <= Big(std::numeric_limits<T>::max()) && (v > Big(std::numeric_limits<T>::min()) || !sign)}; }
template<class T, class P> void judge_num(const char* name, P const& p, std::vector<S> const& in, int radix, size_t min, size_t max, bool sign) {
	for (S const& s : in) { auto o = number<T>(s, 0, radix, min, max, sign); MC_STATE(S(name) + " on \"" + s + "\""); trace();
		auto r = w::parse(s.begin(), s.end(), p); eq("number success", r.success(), o.ok); eq("number end", size_t(r.current() - s.begin()), o.pos); T t = r.attr(); if (o.ok && o.judged) eq("number value", show(t), show(o.v)); } }
static std::vector<S> limits(int radix, bool sign) { std::vector<S> r; for (int b : {7, 8, 15, 16, 31, 32, 63, 64}) for (int d = -2; d < 3; ++d) { S t = digits((Big(1) << b) + d, radix); for (S pre : {"", "-", "+", "0"}) for (S post : {"", "0", "x", "9", "-", "f"}) { r.push_back(pre + t + post); } S u = t; for (char& c : u) c = toupper(c); r.push_back(u); (void)sign; } return r; }
template<class T> size_t width(int radix) { return digits(Big(std::numeric_limits<T>::max()), radix).size(); }
#define NUM(T, NAME, RADIX, MIN, MAX, SIGN) judge_num<T>(#NAME, w::NAME, all, RADIX, MIN, MAX, SIGN); judge_num<T>(#NAME, w::NAME, limits(RADIX, SIGN), RADIX, MIN, MAX, SIGN)
#define NUMS(S_, NAME, RADIX, SIGN) NUM(std::S_##8_t, NAME##8, RADIX, 1, width<std::S_##8_t>(RADIX), SIGN); NUM(std::S_##16_t, NAME##16, RADIX, 1, width<std::S_##16_t>(RADIX), SIGN); NUM(std::S_##32_t, NAME##32, RADIX, 1, width<std::S_##32_t>(RADIX), SIGN); NUM(std::S_##64_t, NAME##64, RADIX, 1, width<std::S_##64_t>(RADIX), SIGN)
#define FULL(NAME, RADIX) NUM(std::uint8_t, NAME##8f, RADIX, width<std::uint8_t>(RADIX), width<std::uint8_t>(RADIX), false); NUM(std::uint16_t, NAME##16f, RADIX, width<std::uint16_t>(RADIX), width<std::uint16_t>(RADIX), false); NUM(std::uint32_t, NAME##32f, RADIX, width<std::uint32_t>(RADIX), width<std::uint32_t>(RADIX), false); NUM(std::uint64_t, NAME##64f, RADIX, width<std::uint64_t>(RADIX), width<std::uint64_t>(RADIX), false)
MC_SECTION(numbers) { std::vector<S> all = inputs(thorough() ? 6 : 4, "0178+-9afF"); bound("texts", str(all.size()));
	NUMS(int, int, 10, true); NUMS(uint, uint, 10, false); NUMS(uint, bin, 2, false); NUMS(uint, oct, 8, false); NUMS(uint, hex, 16, false);
	NUM(std::intmax_t, int_, 10, 1, 99, true); NUM(std::uintmax_t, uint_, 10, 1, 99, false); NUM(std::uintmax_t, bin, 2, 1, 99, false); NUM(std::uintmax_t, oct, 8, 1, 99, false); NUM(std::uintmax_t, hex, 16, 1, 99, false);
	FULL(bin, 2); FULL(oct, 8); FULL(hex, 16);
}
MC_SECTION(numbers_with_digit_bounds) { std::vector<S> all = inputs(thorough() ? 7 : 6, "019+-");
#define BOUNDS(MIN, MAX) { w::int_p<int, 10, MIN, MAX> p; judge_num<int>("int_p<int,10," #MIN "," #MAX ">", p, all, 10, MIN, MAX, true); w::uint_p<unsigned, 2, MIN, MAX> q; judge_num<unsigned>("uint_p<unsigned,2," #MIN "," #MAX ">", q, all, 2, MIN, MAX, false); }
	BOUNDS(1, 1) BOUNDS(1, 2) BOUNDS(1, 3) BOUNDS(2, 2) BOUNDS(2, 3) BOUNDS(3, 3) BOUNDS(3, 4) BOUNDS(4, 5)
}
// plain characters and texts as operands, and attributes that are not characters
template<class P> void same(const char* name, P const& p, Out o, S const& s) { MC_STATE(S(name) + " on \"" + s + "\""); trace(); auto r = w::parse(s.begin(), s.end(), p); eq("plain success", r.success(), o.ok); eq("plain end", size_t(r.current() - s.begin()), o.pos); if (o.ok) eq("plain attribute", flat(r.attr()), o.v); }
MC_SECTION(plain_operands) { auto a = lit_a(); auto ab = lit_ab(); auto c = ch_ab();
	for (S const& s : texts()) {
		same("'a' >> char_", 'a' >> w::char_, run(seq(a, ch_any()).n, s, 0), s); same("char_ >> 'a'", w::char_ >> 'a', run(seq(ch_any(), a).n, s, 0), s);
		same("\"ab\" >> char_", "ab" >> w::char_, run(seq(ab, ch_any()).n, s, 0), s); same("char_ >> \"ab\"", w::char_ >> "ab", run(seq(ch_any(), ab).n, s, 0), s);
		same("'a' | char_('b')", 'a' | w::char_('b'), run(alt(a, ch_b()).n, s, 0), s); same("char_ab - 'a'", w::char_("ab") - 'a', run(diff(c, a).n, s, 0), s);
		same("char_ - \"ab\"", w::char_ - "ab", run(diff(ch_any(), ab).n, s, 0), s); same("\"ab\" | char_('b')", "ab" | w::char_('b'), run(alt(ab, ch_b()).n, s, 0), s);
		same("lit % 'a'", w::lim<3>(w::char_("bc")) % 'a', run(list<3>(mk<C>(w::char_("bc"), SET, "", "bc"), a, w::limited::discard).n, s, 0), s);
		same("as_array", w::as_array[w::char_("ab")], run(c.n, s, 0), s); same("lim", w::lim<2>(w::char_("ab")), run(c.n, s, 0), s); } }
MC_SECTION(lines) { for (S const& s : inputs(6, "\r\na")) { auto l = mk<U>(w::eol, EOL, "eol"); same("eol", w::eol, run(l.n, s, 0), s); same("*(eol | 'a')", *(w::eol | 'a'), run(star(alt(l, lit_a())).n, s, 0), s); } }
struct Twice { typedef long result_type; long operator()(std::intmax_t v) const { return 2 * v; } };
MC_SECTION(mixed_attributes) { // tuples, arrays and variants of numbers and characters
	for (S const& s : inputs(thorough() ? 7 : 6, "12,-x")) {
		auto i = number<std::intmax_t>(s, 0, 10, 1, 99, true); size_t p = i.pos; bool comma = i.ok && p < s.size() && s[p] == ','; auto j = comma ? number<std::intmax_t>(s, p + 1, 10, 1, 99, true) : decltype(i){false, 0, 0, false};
		MC_STATE("numbers on \"" + s + "\""); trace();
		{ auto r = w::parse(s.begin(), s.end(), w::int_ >> ',' >> w::int_); eq("array success", r.success(), j.ok); if (j.ok) { eq("array end", size_t(r.current() - s.begin()), j.pos); eq("array size", r.attr().size(), size_t(2)); eq("array", show(r.attr()[0]) + ";" + show(r.attr()[1]), show(i.v) + ";" + show(j.v)); } }
		{ auto r = w::parse(s.begin(), s.end(), w::int_ >> w::char_); bool ok = i.ok && p < s.size(); eq("tuple success", r.success(), ok); if (ok) { eq("tuple end", size_t(r.current() - s.begin()), p + 1); eq("tuple", show(sprout::tuples::get<0>(r.attr())) + sprout::tuples::get<1>(r.attr()), show(i.v) + s[p]); } }
		{ auto r = w::parse(s.begin(), s.end(), w::char_ >> w::int_ >> w::char_); auto k = s.empty() ? i : number<std::intmax_t>(s, 1, 10, 1, 99, true); bool ok = !s.empty() && k.ok && k.pos < s.size(); eq("triple success", r.success(), ok); if (ok) eq("triple", S(1, sprout::tuples::get<0>(r.attr())) + show(sprout::tuples::get<1>(r.attr())) + sprout::tuples::get<2>(r.attr()), s[0] + show(k.v) + s[k.pos]); }
		{ auto r = w::parse(s.begin(), s.end(), w::as_tuple[w::int_] >> w::as_tuple[w::char_]); bool ok = i.ok && p < s.size(); eq("as_tuple success", r.success(), ok); if (ok) eq("as_tuple", show(sprout::tuples::get<0>(r.attr())) + sprout::tuples::get<1>(r.attr()), show(i.v) + s[p]); }
		{ auto r = w::parse(s.begin(), s.end(), w::int_ | w::char_); bool ok = !s.empty(); eq("variant success", r.success(), ok); if (ok) { eq("variant end", size_t(r.current() - s.begin()), i.ok ? p : size_t(1)); eq("variant which", r.attr().which(), i.ok ? 0 : 1); if (i.ok) eq("variant int", show(r.attr().template get<std::intmax_t>()), show(i.v)); else eq("variant char", r.attr().template get<char>(), s[0]); } }
		{ auto r = w::parse(s.begin(), s.end(), w::lim<3>(w::int_) % ','); std::vector<Big> v; size_t q = 0, e = 0; for (;;) { auto n = number<std::intmax_t>(s, e, 10, 1, 99, true); if (!n.ok) break; v.push_back(n.v); q = n.pos; if (q == s.size() || s[q] != ',') break; e = q + 1; }
			eq("list success", r.success(), !v.empty()); eq("list end", size_t(r.current() - s.begin()), q); for (size_t k = 0; k < v.size() && k < 3; ++k) eq("list element", show(r.attr()[k]), show(v[k])); for (size_t k = v.size(); !v.empty() && k < 3; ++k) eq("list rest", show(r.attr()[k]), S("0")); }
		{ auto r = w::parse(s.begin(), s.end(), w::int_ ->* Twice()); eq("action success", r.success(), i.ok); eq("action end", size_t(r.current() - s.begin()), p); if (i.ok) eq("action", show(r.attr()), show(2 * i.v)); }
	} }
MC_SECTION(character_classes) {
#define CLASS(NAME) { auto r = w::parse(s.begin(), s.end(), w::NAME); bool in = c < 128 && std::is##NAME(c); eq("class " #NAME, r.success(), in); eq("class end", size_t(r.current() - s.begin()), size_t(in)); if (in) eq("class attribute", (unsigned char)r.attr() == c, true); auto q = w::parse(s.begin(), s.end(), w::NAME##_); eq("class without attribute " #NAME, q.success(), in); eq("class end", size_t(q.current() - s.begin()), size_t(in)); sprout::weed::unused u = q.attr(); (void)u; }
	for (int c = 0; c < 256; ++c) { S s(1, char(c)); MC_STATE("character " + str(c)); trace(); CLASS(alnum) CLASS(alpha) CLASS(blank) CLASS(cntrl) CLASS(digit) CLASS(graph) CLASS(print) CLASS(punct) CLASS(space) CLASS(xdigit) CLASS(lower) CLASS(upper) } }
#endif
