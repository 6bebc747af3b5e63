// W02: the brainfuck interpreter and its alternative notations. Oracle: a direct interpreter of the language definition.
#include "mc.hpp"
#include <sprout/brainfuck.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <sprout/pit.hpp>
#include <stdexcept>
using namespace mc; typedef std::string S;
#ifndef PART
#define PART 0
#endif
static bool balanced(S const& p) { int d = 0; for (char c : p) { if (c == '[') ++d; if (c == ']' && --d < 0) return false; } return d == 0; }
// "" = no answer within the step bound; otherwise "out:<bytes>" or "out of range"
template<class Ch> S oracle(S const& p, size_t tape, size_t outn, std::vector<int> const& in, bool endless, int steps, int mark = 0) {
	std::vector<Ch> t(tape, Ch()); long pos = 0; size_t ii = 0; std::vector<int> out; size_t pc = 0; const S bad = "out of range";
	std::vector<size_t> jump(p.size()); std::vector<size_t> st; for (size_t i = 0; i < p.size(); ++i) { if (p[i] == '[') st.push_back(i); if (p[i] == ']') { jump[i] = st.back(); jump[st.back()] = i; st.pop_back(); } }
	for (; pc < p.size(); ++pc) { if (--steps < 0) return ""; bool in_tape = pos >= 0 && pos < (long)tape;
		switch (p[pc]) { case '>': ++pos; continue; case '<': --pos; continue; case '+': case '-': case '.': case ',': case '[': case ']': break; default: continue; }
		if (p[pc] == '.' && out.size() == outn) return bad; if (p[pc] == ',' && !endless && ii == in.size()) return bad; if (p[pc] == ',' && !in_tape) return bad; if (!in_tape) return bad; Ch& c = t[pos];
		switch (p[pc]) { case '+': c = Ch(c + 1); break; case '-': c = Ch(c - 1); break; case '.': out.push_back(c); break; case ',': c = endless ? Ch() : Ch(in[ii++]); break; case '[': if (c == 0) pc = jump[pc]; break; case ']': if (c != 0) pc = jump[pc]; break; } }
	S r = "out:"; out.resize(outn, mark); for (int v : out) r += str(v) + ","; return r; }
template<class A> S show(A const& a) { S r = "out:"; for (auto c : a) r += str(int(c)) + ","; return r; }
template<class F> S guarded(F const& f) { try { return show(f()); } catch (std::out_of_range&) { return "out of range"; } }
static const S abc = "><+-.,[]x";
template<size_t T, size_t O> void programs(S const& p, int steps) {
	if (!balanced(p)) return; bool reads = p.find(',') != S::npos;
	std::vector<std::vector<int> > ins; ins.push_back({}); if (reads) { ins.push_back({1}); ins.push_back({2, 0}); ins.push_back({0, -1}); }
	for (auto& in : ins) { S want = oracle<char>(p, T, O, in, false, steps); if (want.empty()) continue;
		MC_STATE("program " + p + " tape " + str(T) + " output " + str(O) + " input " + str(in.size()) + (in.empty() ? S() : ":" + str(in[0]))); trace();
		std::vector<char> cin(in.begin(), in.end()); eq("exec", guarded([&]() { return sprout::brainfuck::exec<T>(p.begin(), p.end(), sprout::pit<sprout::array<char, O> >(), cin.begin(), cin.end()); }), want);
		sprout::array<char, O> marked; for (auto& c : marked) c = 'm'; eq("exec into a container that holds something", guarded([&]() { return sprout::brainfuck::exec<T>(p.begin(), p.end(), marked, cin.begin(), cin.end()); }), oracle<char>(p, T, O, in, false, steps, 'm')); }
	S want = oracle<char>(p, T, O, {}, true, steps); if (want.empty()) return; MC_STATE("program " + p + " tape " + str(T) + " output " + str(O) + " without input"); trace();
	{ sprout::basic_string<char, O> marked(sprout::string_from_c_str<O>(S(O, (char)109).c_str())); eq("exec without input into a string that holds something", guarded([&]() { return sprout::brainfuck::exec<T>(p.begin(), p.end(), marked); }), oracle<char>(p, T, O, {}, true, steps, 'm')); }
	eq("exec without input", guarded([&]() { return sprout::brainfuck::exec<T>(p.begin(), p.end(), sprout::pit<sprout::array<char, O> >()); }), want);
	want = oracle<char>(p, T, T, {}, true, steps); if (!want.empty()) eq("exec into a tape-sized array", guarded([&]() { return sprout::brainfuck::exec<T>(p.begin(), p.end()); }), want); }
static S text(std::vector<int> const& v) { S s; for (int i : v) s += abc[i]; return s; }
static void whole(S const& p, int steps) { programs<1, 1>(p, steps); programs<2, 2>(p, steps); programs<3, 1>(p, steps); }
#if PART == 0
MC_SECTION(well_formed) { bound("length", "0..10 over [ ] x"); sequences_upto(thorough() ? 12 : 10, 3, [&](std::vector<int> const& v) { S s; for (int i : v) s += "[]x"[i]; MC_STATE("brackets " + s); trace(); eq("is_well_formed", sprout::brainfuck::is_well_formed(s.begin(), s.end()), balanced(s)); }); }
MC_SECTION(programs_over_all_commands) { bound("length", thorough() ? "0..6" : "0..5"); sequences_upto(thorough() ? 6 : 5, 9, [&](std::vector<int> const& v) { whole(text(v), 400); }); }
MC_SECTION(programs_with_loops) { bound("length", thorough() ? "0..9 over + - [ ] . >" : "0..7"); const S some = "+-[].>"; sequences_upto(thorough() ? 9 : 7, 6, [&](std::vector<int> const& v) { S s; for (int i : v) s += some[i]; if (s.find('[') != S::npos) programs<2, 2>(s, 1200); }); }
MC_SECTION(copying_programs) { bound("length", "0..9 over [ ] , . -"); const S some = "[],.-"; sequences_upto(thorough() ? 10 : 8, 5, [&](std::vector<int> const& v) { S s; for (int i : v) s += some[i]; if (s.find('[') != S::npos) programs<1, 2>(s, 600); }); }
// whole programs by their ranges
MC_SECTION(ranges) { sequences_upto(4, 9, [&](std::vector<int> const& v) { S p = text(v); if (!balanced(p)) return; p.resize(6, ' '); sprout::basic_string<char, 6> src = sprout::string_from_c_str<6>(p.c_str()); const int in[] = {3, 1}; sprout::array<char, 2> cin = {{3, 1}};
	S w1 = oracle<char>(p, 3, 2, {3, 1}, false, 300), w2 = oracle<char>(p, 3, 2, {}, true, 300), w3 = oracle<char>(p, 3, 3, {}, true, 300); (void)in; MC_STATE("range program " + p); trace();
	if (!w1.empty()) eq("exec_range", guarded([&]() { return sprout::brainfuck::exec_range<3>(src, sprout::pit<sprout::array<char, 2> >(), cin); }), w1);
	if (!w2.empty()) eq("exec_range without input", guarded([&]() { return sprout::brainfuck::exec_range<3>(src, sprout::pit<sprout::array<char, 2> >()); }), w2);
	if (!w3.empty()) eq("exec_range tape-sized", guarded([&]() { return sprout::brainfuck::exec_range<3>(src); }), w3); }); }
#endif
#if PART == 1 || PART == 2
#if PART == 1
#include <sprout/brainfuck/misa.hpp>
namespace notation = sprout::brainfuck::misa;
struct Tok { const char* s; char c; };
static const Tok toks[] = {{">", '>'}, {"<", '<'}, {"+", '+'}, {"-", '-'}, {".", '.'}, {",", ','}, {"[", '['}, {"]", ']'}, {"\x81\xA8", '>'}, {"\x81\x60", '>'}, {"\x81\x5B", '>'}, {"\x81\xA9", '<'}, {"\x81\x9A", '<'}, {"\x81\x99", '<'}, {"\x82\xA0", '+'}, {"\x82\x9F", '+'}, {"\x82\xA8", '+'}, {"\x82\xA7", '+'}, {"\x82\xC1", '-'}, {"\x83\x62", '-'}, {"\x81\x49", '.'}, {"\x81\x48", ','}, {"\x81\x75", '['}, {"\x81\x77", '['}, {"\x81\x76", ']'}, {"\x81\x78", ']'}};
static bool next(S const& s, size_t& p, char& c) { for (auto& t : toks) { size_t n = std::strlen(t.s); if (s.compare(p, n, t.s) == 0) { p += n; c = t.c; return true; } } ++p; c = ' '; return true; }
static const char* pieces[] = {">", "<", "+", "-", ".", ",", "[", "]", "\x81\xA8", "\x81\x60", "\x81\x5B", "\x81\xA9", "\x81\x9A", "\x81\x99", "\x82\xA0", "\x82\x9F", "\x82\xA8", "\x82\xA7", "\x82\xC1", "\x83\x62", "\x81\x49", "\x81\x48", "\x81\x75", "\x81\x77", "\x81\x76", "\x81\x78", "x", "\x81", "\x82", "\x83", "\xA8", "\x81\x43"};
#else
#include <sprout/brainfuck/ook.hpp>
namespace notation = sprout::brainfuck::ook;
static bool next(S const& s, size_t& p, char& c) { // two words and the blanks between them
	auto word = [&](size_t q) { return s.compare(q, 3, "Ook") == 0 && q + 3 < s.size() && S(".?!").find(s[q + 3]) != S::npos ? s[q + 3] : 0; };
	char a = word(p); if (a) { size_t q = p + 4; while (q < s.size() && (s[q] == ' ' || s[q] == '\n' || s[q] == '\t')) ++q; char b = q < s.size() ? word(q) : 0; S k = S(1, a) + (b ? b : 'z');
		const char* from[] = {".?", "?.", "..", "!!", "!.", ".!", "!?", "?!"}; for (int i = 0; i < 8; ++i) if (b && k == from[i]) { p = q + 4; c = "><+-.,[]"[i]; return true; } }
	++p; c = ' '; return true; }
static const char* pieces[] = {"Ook. Ook?", "Ook? Ook.", "Ook. Ook.", "Ook! Ook!", "Ook! Ook.", "Ook. Ook!", "Ook! Ook?", "Ook? Ook!", "Ook.", "Ook!", "Ook?", " ", "\n", "Ook", "x", "Ook?Ook?"};
#endif
static S translate(S const& s) { S r; size_t p = 0; char c; while (p < s.size() && next(s, p, c)) r += c; return r; }
template<size_t N> void convert(S const& s) { S want = translate(s); if (want.size() > N) return; // longer programs do not fit
	MC_STATE("notation " + s); trace();
	auto r = notation::to_brainfuck(s.begin(), s.end(), sprout::pit<sprout::basic_string<char, N> >()); eq("to_brainfuck success", r.second, true); { S got(r.first.begin(), r.first.end()); while (!got.empty() && got.back() == 0) got.pop_back(); eq("to_brainfuck", got, want); }
	if (!balanced(want)) return; sprout::basic_string<char, 80> src = sprout::string_from_c_str<80>(s.c_str()); if (s.size() > 80) return; sprout::array<char, 2> cin = {{2, 1}};
	S w1 = oracle<char>(want, 3, 2, {2, 1}, false, 200), w2 = oracle<char>(want, 3, 2, {}, true, 200), w3 = oracle<char>(want, 3, 3, {}, true, 200);
	if (!w1.empty()) eq("notation exec_range", guarded([&]() { return notation::exec_range<3>(src, sprout::pit<sprout::array<char, 2> >(), cin); }), w1);
	if (!w2.empty()) eq("notation exec_range without input", guarded([&]() { return notation::exec_range<3>(src, sprout::pit<sprout::array<char, 2> >()); }), w2);
	if (!w3.empty()) eq("notation exec_range tape-sized", guarded([&]() { return notation::exec_range<3>(src); }), w3); }
MC_SECTION(notation) { const int n = sizeof(pieces) / sizeof(*pieces); bound("pieces", str(n)); sequences_upto(thorough() ? 4 : PART == 1 ? 2 : 3, n, [&](std::vector<int> const& v) { S s; for (int i : v) s += pieces[i]; convert<40>(s); });
#if PART == 1
	const int few[] = {2, 22, 18, 25, 20, 21, 8}; sequences_upto(thorough() ? 6 : 5, 7, [&](std::vector<int> const& v) { S s; for (int i : v) s += pieces[few[i]]; convert<40>(s); });
#else
	sequences_upto(4, 8, [&](std::vector<int> const& v) { S s; for (int i : v) s += pieces[i] + S(" "); convert<40>(s); });
#endif
}
#endif
