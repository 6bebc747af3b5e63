// B01: sprout::bitset behaves as std::bitset
#include "mc.hpp"
#include <sprout/bitset.hpp>
#include <bitset>
#include <sstream>
#include <set>
#include <algorithm>
using namespace mc; typedef std::string S;
template<size_t N> struct Eq { typedef sprout::bitset<N> B; typedef std::bitset<N> R;
	static S txt(B const& b) { S s; for (size_t i = N; i-- > 0;) s += b[i] ? '1' : '0'; return s; }
	static B mk(R const& r) { B b; for (size_t i = 0; i < N; ++i) if (r[i]) b.set(i); return b; }
	static void same(const char* op, B const& b, R const& r) { eq(op, txt(b), r.to_string()); eq(S(op).append(" count").c_str(), b.count(), r.count()); } // stray bits above N show in count
	template<class F, class G> static void thr(const char* op, F const& f, G const& g) { S a, b; try { f(); a = "no exception"; } catch (std::out_of_range const&) { a = "out_of_range"; } catch (std::overflow_error const&) { a = "overflow_error"; } catch (std::invalid_argument const&) { a = "invalid_argument"; } try { g(); b = "no exception"; } catch (std::out_of_range const&) { b = "out_of_range"; } catch (std::overflow_error const&) { b = "overflow_error"; } catch (std::invalid_argument const&) { b = "invalid_argument"; } eq(op, a, b); }
	// every query, and every operation in its modifying and its copying form
	static void unary(R const& r, std::vector<size_t> const& ps) {
		B const b = mk(r); MC_STATE("bitset<" + str(N) + "> " + r.to_string()); trace(); B m; R q;
		same("construct", b, r); eq("all", b.all(), r.all()); eq("any", b.any(), r.any()); eq("none", b.none(), r.none()); eq("size", b.size(), r.size()); eq("equal itself", b == b && !(b != b), true);
		eq("find_first", b.find_first(), r._Find_first()); for (size_t i = 0; i < N; ++i) eq("find_next", b.find_next(i), r._Find_next(i)); eq("find_next at the end", b.find_next(N), N); eq("find_next beyond", b.find_next(N + 100), N);
		same("flip", b.flip(), ~r); same("operator~", ~b, ~r); m = b; q = r; eq("flip result", &m.flip() == &m, true); same("flip in place", m, ~r); m = b; eq("set result", &m.set() == &m, true); same("set in place", m, q.set()); same("set", b.set(), q); eq("set all", m.all(), true);
		m = b; eq("reset result", &m.reset() == &m, true); q = r; same("reset in place", m, q.reset()); same("reset", b.reset(), q);
		thr("to_ulong", [&]() { eq("to_ulong", b.to_ulong(), r.to_ulong()); }, [&]() { r.to_ulong(); }); thr("to_ullong", [&]() { eq("to_ullong", b.to_ullong(), r.to_ullong()); }, [&]() { r.to_ullong(); });
		eq("to_string", b.to_string(), r.to_string()); eq("to_string chars", b.to_string('a', 'b'), r.to_string('a', 'b')); eq("to_string zero", b.to_string('.'), r.to_string('.'));
		eq("to_string wide", b.template to_string<wchar_t>(L'x', L'y') == r.template to_string<wchar_t>(L'x', L'y'), true); eq("to_string char", b.template to_string<char>(), r.to_string());
		same("from string", B(r.to_string()), r); same("from wide string", B(r.template to_string<wchar_t>()), r); same("from pointer", B(r.to_string().c_str()), r); same("from chars", B(r.to_string('a', 'b').c_str(), (size_t)-1, 'a', 'b'), r);
		{ std::ostringstream o, p; o.width(N + 3); p.width(N + 3); o << b; p << r; eq("operator<<", o.str(), p.str()); std::wostringstream w; w << b; eq("operator<< wide", w.str() == r.template to_string<wchar_t>(), true); }
		for (size_t p : ps) { MC_STATE("bitset<" + str(N) + "> " + r.to_string() + " position " + str(p)); trace(); bool in = p < N;
			thr("test", [&]() { eq("test", b.test(p), in && r[p]); }, [&]() { r.test(p); });
			m = b; q = r; thr("set at", [&]() { eq("set at result", &m.set(p) == &m, true); }, [&]() { q.set(p); }); same("set at", m, q); thr("set at copy", [&]() { same("set at copy", b.set(p), q); }, [&]() { q.set(p); });
			for (int v = 0; v < 2; ++v) { m = b; q = r; thr("set value", [&]() { m.set(p, v != 0); }, [&]() { q.set(p, v != 0); }); same("set value", m, q); thr("set value copy", [&]() { same("set value copy", b.set(p, v != 0), q); }, [&]() { q.set(p, v != 0); }); }
			m = b; q = r; thr("reset at", [&]() { eq("reset at result", &m.reset(p) == &m, true); }, [&]() { q.reset(p); }); same("reset at", m, q); thr("reset at copy", [&]() { same("reset at copy", b.reset(p), q); }, [&]() { q.reset(p); });
			m = b; q = r; thr("flip at", [&]() { eq("flip at result", &m.flip(p) == &m, true); }, [&]() { q.flip(p); }); same("flip at", m, q); m = b; q = r; thr("flip at copy", [&]() { same("flip at copy", b.flip(p), q.flip(p)); }, [&]() { q.flip(p); });
			m = b; m <<= p; same("operator<<=", m, r << p); same("operator<<", b << p, r << p); m = b; m >>= p; same("operator>>=", m, r >> p); same("operator>>", b >> p, r >> p); m = b; eq("<<= result", &(m <<= p) == &m, true); m = b; eq(">>= result", &(m >>= p) == &m, true);
			if (in) refs(b, r, p, ps); }
	}
	static void refs(B const& b, R const& r, size_t p, std::vector<size_t> const& ps) {
		B m; R q; m = b; eq("reference", (bool)m[p], (bool)r[p]); eq("reference ~", ~m[p], !r[p]);
		m = b; q = r; m[p] = true; q[p] = true; same("reference = true", m, q); m = b; q = r; m[p] = false; q[p] = false; same("reference = false", m, q); m = b; q = r; m[p].flip(); q[p].flip(); same("reference flip", m, q);
		for (size_t p2 : ps) if (p2 < N) { m = b; q = r; m[p] = m[p2]; q[p] = (bool)q[p2]; same("reference = reference", m, q); }
	}
	static void binary(R const& r, R const& s) {
		B const a = mk(r), b = mk(s); MC_STATE("bitset<" + str(N) + "> " + r.to_string() + " " + s.to_string()); trace(); B m;
		same("operator&", a & b, r & s); same("operator|", a | b, r | s); same("operator^", a ^ b, r ^ s); m = a; eq("&= result", &(m &= b) == &m, true); same("operator&=", m, r & s); m = a; eq("|= result", &(m |= b) == &m, true); same("operator|=", m, r | s); m = a; eq("^= result", &(m ^= b) == &m, true); same("operator^=", m, r ^ s);
		eq("operator==", a == b, r == s); eq("operator!=", a != b, r != s); m = a; m = b; same("assign", m, s); m = a; m = B(b); same("move assign", m, s); m = a; m &= m; same("&= itself", m, r); m = a; m ^= m; same("^= itself", m, r ^ r);
		if (r == s) eq("hash", sprout::hash<B>()(a), sprout::hash<B>()(b)); eq("hash forms", sprout::hash<B>()(a) == std::hash<B>()(a) && std::hash<B>()(a) == hash_value(a), true);
	}
	// equal sets reached through different histories hash alike and compare equal (no stray bits)
	static void stray(R const& r) { B b = mk(r); std::vector<B> v; v.push_back(B(b)); v.push_back(~~b); B m = b; m.set(); m &= b; v.push_back(m); m = b; m.flip(); m.flip(); v.push_back(m); m = ~b; m ^= B().set(); v.push_back(m); v.push_back((b << 1) >> 1 | (b & (B().set() >> (N ? N - 1 : 0) << (N ? N - 1 : 0)))); v.push_back((b >> 1) << 1 | (b & ~(B().set() << 1)));
		for (size_t i = 0; i < v.size(); ++i) { MC_STATE("bitset<" + str(N) + "> " + r.to_string() + " route " + str(i)); trace(); same("route", v[i], r); eq("route equal", v[i] == b, true); eq("route hash", hash_value(v[i]), hash_value(b)); } }
};
template<size_t N> void small() { // every state, every pair
	std::vector<size_t> ps; for (size_t i = 0; i < N + 3; ++i) ps.push_back(i); for (size_t p : {(size_t)31, (size_t)32, (size_t)63, (size_t)64, (size_t)65, (size_t)127, (size_t)128, (size_t)-1, (size_t)-64}) ps.push_back(p);
	for (unsigned v = 0; v < (1u << N); ++v) { std::bitset<N> r(v); Eq<N>::unary(r, ps); Eq<N>::stray(r); for (unsigned w = 0; w < (1u << N); ++w) Eq<N>::binary(r, std::bitset<N>(w)); }
}
template<size_t N> std::vector<std::bitset<N> > patterns(int dense) { // unions of up to two runs with ends at the interesting places
	std::vector<size_t> e; for (size_t x : {0, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, 66, 95, 126, 127, 128, 129, 191, 192, 193}) if (x <= N) e.push_back(x); for (size_t x : {N, N - 1, N - 2}) if (N >= 2 && std::find(e.begin(), e.end(), x) == e.end()) e.push_back(x); std::sort(e.begin(), e.end());
	std::vector<std::bitset<N> > r; std::set<S> seen; auto add = [&](std::bitset<N> const& b) { if (seen.insert(b.to_string()).second) r.push_back(b); };
	auto run = [&](size_t i, size_t j) { std::bitset<N> b; for (size_t k = e[i]; k < e[j]; ++k) b.set(k); return b; };
	add(std::bitset<N>()); for (size_t i = 0; i < e.size(); ++i) for (size_t j = i + 1; j < e.size(); ++j) add(run(i, j));
	std::bitset<N> alt; for (size_t i = 0; i < N; i += 2) alt.set(i); add(alt); add(~alt); std::bitset<N> prime; for (size_t i = 0; i < N; ++i) if (i * 2654435761u >> 7 & 1) prime.set(i); add(prime);
	if (dense) for (size_t i = 0; i < e.size(); ++i) for (size_t j = i + 1; j < e.size(); ++j) for (size_t k = j + 1; k < e.size(); ++k) for (size_t l = k + 1; l < e.size(); ++l) add(run(i, j) | run(k, l));
	return r;
}
template<size_t N> void big() {
	std::vector<size_t> ps; for (size_t i = 0; i < N + 3; ++i) ps.push_back(i); for (size_t p : {N + 61, N + 64, N + 128, (size_t)-1, (size_t)-64, (size_t)1 << 32}) ps.push_back(p); std::vector<size_t> few; for (size_t p : ps) if (p % 32 <= 1 || p % 32 >= 31 || p + 2 >= N) few.push_back(p);
	std::vector<std::bitset<N> > a = patterns<N>(0), b = patterns<N>(1); for (size_t i = 0; i < a.size(); ++i) Eq<N>::unary(a[i], thorough() || i % (N > 100 ? 16 : 4) == 0 ? ps : few); for (auto const& r : b) { Eq<N>::stray(r); }
	if (thorough()) for (auto const& r : b) Eq<N>::unary(r, few);
	for (auto const& r : a) for (auto const& s : a) Eq<N>::binary(r, s);
	bound("bitset<" + str(N) + ">", str(a.size()) + " patterns of one run with every position and shift 0.." + str(N + 2) + " and beyond, all pairs; " + str(b.size()) + " patterns of two runs");
}
MC_SECTION(b01_small) { bound("small sizes", "sizes 0-6: every set, every pair, every position and shift"); small<0>(); small<1>(); small<2>(); small<3>(); small<4>(); small<5>(); small<6>(); }
MC_SECTION(b01_31) { big<31>(); big<32>(); } MC_SECTION(b01_33) { big<33>(); }
MC_SECTION(b01_63) { big<63>(); } MC_SECTION(b01_64) { big<64>(); } MC_SECTION(b01_65) { big<65>(); }
MC_SECTION(b01_127) { big<127>(); } MC_SECTION(b01_128) { big<128>(); } MC_SECTION(b01_129) { big<129>(); } MC_SECTION(b01_192) { big<192>(); } MC_SECTION(b01_200) { big<200>(); }
// construction from integers
template<size_t N> void ints(std::vector<unsigned long long> const& v) { for (unsigned long long x : v) { MC_STATE("bitset<" + str(N) + ">(" + str(x) + ")"); trace(); sprout::bitset<N> b(x); std::bitset<N> r(x); Eq<N>::same("from integer", b, r); eq("from integer equal", b == Eq<N>::mk(r), true); } }
MC_SECTION(b01_integers) { std::vector<unsigned long long> v; for (int i = 0; i <= 64; ++i) for (int j = 0; j <= i; ++j) { unsigned long long hi = i == 64 ? ~0ull : (1ull << i) - 1, lo = j == 64 ? ~0ull : (1ull << j) - 1; v.push_back(hi & ~lo); v.push_back(~(hi & ~lo)); } for (unsigned i = 0; i < 512; ++i) v.push_back(i);
	bound("integers", "every one-run and one-gap 64-bit pattern and 0-511, for 14 sizes"); ints<0>(v); ints<1>(v); ints<2>(v); ints<7>(v); ints<8>(v); ints<31>(v); ints<32>(v); ints<33>(v); ints<63>(v); ints<64>(v); ints<65>(v); ints<127>(v); ints<128>(v); ints<200>(v); }
// construction from text: position, count, other characters, errors
template<size_t N> void text(int len) {
	static const char al[] = {'0', '1', 'x'}; sequences_upto(len, 3, [&](std::vector<int> const& ix) { S s; for (int i : ix) s += al[i];
		for (size_t p = 0; p <= s.size() + 1; ++p) { for (size_t n = 0; n <= s.size() + 2; ++n) { size_t c = n == s.size() + 2 ? (size_t)-1 : n; MC_STATE("bitset<" + str(N) + ">(" + s + ", " + str(p) + ", " + str((long)c) + ")"); trace();
				sprout::bitset<N> b; std::bitset<N> r; Eq<N>::thr("string", [&]() { b = sprout::bitset<N>(s, p, c); }, [&]() { r = std::bitset<N>(s, p, c); }); Eq<N>::same("string", b, r);
				b.reset(); r.reset(); Eq<N>::thr("string with characters", [&]() { b = sprout::bitset<N>(s, p, c, 'x', '0'); }, [&]() { r = std::bitset<N>(s, p, c, 'x', '0'); }); Eq<N>::same("string with characters", b, r);
				b.reset(); r.reset(); Eq<N>::thr("string with zero", [&]() { b = sprout::bitset<N>(s, p, c, 'x'); }, [&]() { r = std::bitset<N>(s, p, c, 'x'); }); Eq<N>::same("string with zero", b, r);
				if (p == 0 && c <= s.size()) { b.reset(); r.reset(); Eq<N>::thr("pointer and count", [&]() { b = sprout::bitset<N>(s.c_str(), c); }, [&]() { r = std::bitset<N>(s.c_str(), c); }); Eq<N>::same("pointer and count", b, r); } }
			sprout::bitset<N> b; std::bitset<N> r; Eq<N>::thr("string from", [&]() { b = sprout::bitset<N>(s, p); }, [&]() { r = std::bitset<N>(s, p); }); Eq<N>::same("string from", b, r); }
		// reading from a stream
		for (const char* tail : {"", " 1", "1", "x"}) { MC_STATE("bitset<" + str(N) + "> from stream '" + s + tail + "'"); trace(); std::istringstream i(s + tail), j(s + tail); sprout::bitset<N> b; std::bitset<N> r; for (size_t k = 0; k < N; k += 2) { b.set(k); r.set(k); } i >> b; j >> r; Eq<N>::same("operator>>", b, r); eq("operator>> state", (int)i.rdstate(), (int)j.rdstate()); i.clear(); j.clear(); S x, y; i >> x; j >> y; eq("operator>> rest", x, y); }
		{ std::wstring w(s.begin(), s.end()); std::wistringstream i(w), j(w); sprout::bitset<N> b; std::bitset<N> r; i >> b; j >> r; Eq<N>::same("operator>> wide", b, r); eq("operator>> wide state", (int)i.rdstate(), (int)j.rdstate()); }
	});
}
MC_SECTION(b01_text) { bound("text", "every text up to 5 over 0 1 x with every position and count; as string, pointer, stream; sizes 0-4, 64, 66"); text<0>(3); text<1>(4); text<2>(4); text<3>(5); text<4>(5); text<64>(4); text<66>(4); }
// histories: breadth-first over every operation, to closure for small sizes
template<size_t N> void hist(int depth, std::vector<size_t> const& at) {
	typedef sprout::bitset<N> B; typedef std::bitset<N> R; struct St { B b; R r; }; std::vector<Op<St> > ops;
	ops.push_back({"set()", [](St& s) { s.b.set(); s.r.set(); return true; }}); ops.push_back({"flip()", [](St& s) { s.b.flip(); s.r.flip(); return true; }}); ops.push_back({"~", [](St& s) { s.b = ~s.b; s.r = ~s.r; return true; }}); ops.push_back({"reset()", [](St& s) { s.b.reset(); s.r.reset(); return true; }});
	for (size_t p : at) if (p < N) { ops.push_back({"set " + str(p), [p](St& s) { s.b.set(p); s.r.set(p); return true; }}); ops.push_back({"flip " + str(p), [p](St& s) { s.b[p].flip(); s.r[p].flip(); return true; }}); ops.push_back({"reset " + str(p), [p](St& s) { s.b = ((B const&)s.b).reset(p); s.r.reset(p); return true; }}); }
	for (size_t p : at) { ops.push_back({"<<= " + str(p), [p](St& s) { s.b <<= p; s.r <<= p; return true; }}); ops.push_back({">>= " + str(p), [p](St& s) { s.b >>= p; s.r >>= p; return true; }}); ops.push_back({"^= <<" + str(p), [p](St& s) { s.b ^= s.b << p; s.r ^= s.r << p; return true; }}); ops.push_back({"|= >>" + str(p), [p](St& s) { s.b |= s.b >> p; s.r |= s.r >> p; return true; }}); ops.push_back({"&= ~<<" + str(p), [p](St& s) { s.b &= ~(s.b << p); s.r &= ~(s.r << p); return true; }}); }
	bfs(St(), ops, [](St const& s) { Eq<N>::same("history", s.b, s.r); eq("history all", s.b.all(), s.r.all()); eq("history equal", s.b == Eq<N>::mk(s.r), true); return s.r.to_string(); }, depth, 4000000);
}
MC_SECTION(b01_histories) { bound("histories", "sizes 1-6 to closure; 64, 65, 130 to depth 6 (thorough 8)"); hist<1>(100, {0, 1}); hist<3>(100, {0, 1, 2}); hist<6>(100, {0, 1, 2, 3, 5}); int d = thorough() ? 8 : 6; hist<64>(d, {0, 1, 31, 63}); hist<65>(d, {0, 1, 63, 64}); hist<130>(d, {0, 1, 63, 64, 127, 129}); }
