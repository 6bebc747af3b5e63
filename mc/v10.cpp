// V10: UUIDs parse, print, generate and compare per RFC 4122
#include "mc.hpp"
#include "digest.hpp"
#include <sprout/uuid/uuid.hpp>
#include <sprout/uuid/io.hpp>
#include <sprout/uuid/string_generator.hpp>
#include <sprout/uuid/namespaces.hpp>
#if PART == 1
#include <sprout/uuid/hash.hpp>
#include <sprout/uuid/tuple.hpp>
#include <sprout/uuid/nil_generator.hpp>
#include <sprout/tuple/tuple.hpp>
#include <unordered_set>
#elif PART == 3
#include <sprout/uuid.hpp>
#include <sprout/random.hpp>
#endif
#include <iomanip>
using namespace mc;
namespace so = sprout;
namespace U = sprout::uuids;
typedef U::uuid uuid;
typedef ref::Bytes Bytes;
inline Bytes by(uuid const& u) { Bytes b; for (int i = 0; i < 16; ++i) b.push_back(u.elems[i]); return b; }
inline uuid mk(Bytes const& b) { uuid u; for (int i = 0; i < 16; ++i) u.elems[i] = b[i]; return u; }
inline std::string hex(Bytes const& b, bool dash, bool upper) { std::string s; for (int i = 0; i < 16; ++i) { if (dash && (i == 4 || i == 6 || i == 8 || i == 10)) s += '-'; s += (upper ? "0123456789ABCDEF" : "0123456789abcdef")[b[i] >> 4]; s += (upper ? "0123456789ABCDEF" : "0123456789abcdef")[b[i] & 15]; } return s; }
inline Bytes pattern(int k) { Bytes b(16); for (int i = 0; i < 16; ++i) b[i] = (unsigned char)(k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? i * 17 : k == 3 ? 0x12 + i * 29 : k == 4 ? 0xf0 - i : i); return b; }
template<class F> void bytewise(F const& f) { for (int k : {0, 1, 3}) for (int i = 0; i < 16; ++i) for (int v = 0; v < 256; ++v) { Bytes b = pattern(k); b[i] = (unsigned char)v; MC_STATE(hex(b, true, false)); f(b); } }
#if PART == 1
template<class T> void reading(T& u, Bytes const& b) {
	eq("begin/end", Bytes(u.begin(), u.end()), b); eq("rbegin/rend", Bytes(u.rbegin(), u.rend()), Bytes(b.rbegin(), b.rend())); eq("cbegin/cend", Bytes(u.cbegin(), u.cend()), b); eq("crbegin/crend", Bytes(u.crbegin(), u.crend()), Bytes(b.rbegin(), b.rend()));
	eq("size", u.size(), (std::size_t)16); eq("max_size", u.max_size(), (std::size_t)16); eq("empty", u.empty(), false); eq("front", u.front(), b[0]); eq("back", u.back(), b[15]); eq("data", Bytes(u.data(), u.data() + 16), b); eq("c_array", Bytes(u.c_array(), u.c_array() + 16), b);
	for (std::size_t i = 0; i < 16; ++i) { eq("[]", u[i], b[i]); eq("at", u.at(i), b[i]); eq("[] refers", (void const*)&u[i] == (void const*)&u.elems[i], true); eq("at refers", (void const*)&u.at(i) == (void const*)&u.elems[i], true); }
	for (std::size_t i : {(std::size_t)16, (std::size_t)17, (std::size_t)-1}) { int t = 0; try { (void)u.at(i); } catch (std::out_of_range const&) { t = 1; } eq("at outside", t, 1); }
}
template<std::size_t I> void tup(uuid& u, Bytes const& b) { uuid const& c = u; eq("get", so::tuples::get<I>(c), b[I]); eq("get refers", &so::tuples::get<I>(u) == &u.elems[I], true); uuid m = u; eq("get of a temporary", (unsigned char)so::tuples::get<I>(std::move(m)), b[I]); static_assert(std::is_same<typename std::tuple_element<I, uuid>::type, std::uint8_t>::value, ""); }
MC_SECTION(single) {
	static_assert(std::tuple_size<uuid>::value == 16, "");
	bytewise([](Bytes const& b) { uuid u = mk(b); uuid const& c = u; reading(u, b); reading(c, b); bool nil = b == Bytes(16, 0); eq("is_nil", u.is_nil(), nil);
		eq("variant", (int)u.variant(), (int)(b[8] < 0x80 ? uuid::variant_ncs : b[8] < 0xc0 ? uuid::variant_rfc_4122 : b[8] < 0xe0 ? uuid::variant_microsoft : uuid::variant_future)); int v = b[6] >> 4; eq("version", (int)u.version(), v >= 1 && v <= 5 ? v : -1);
		uuid w = mk(b); ok("equal values hash alike", so::to_hash(u) == so::to_hash(w) && std::hash<uuid>()(u) == hash_value(w) && so::hash<uuid>()(u) == so::to_hash(u)); trace(); });
	for (int k = 0; k < 6; ++k) { Bytes b = pattern(k); MC_STATE("tuple access " + hex(b, true, false)); uuid u = mk(b); tup<0>(u, b); tup<1>(u, b); tup<2>(u, b); tup<3>(u, b); tup<4>(u, b); tup<5>(u, b); tup<6>(u, b); tup<7>(u, b); tup<8>(u, b); tup<9>(u, b); tup<10>(u, b); tup<11>(u, b); tup<12>(u, b); tup<13>(u, b); tup<14>(u, b); tup<15>(u, b);
		for (int v = 0; v < 256; v += 15) { uuid x = u; x.fill((std::uint8_t)v); eq("fill", by(x), Bytes(16, (unsigned char)v)); uuid y = u; y.assign((std::uint8_t)v); eq("assign", by(y), Bytes(16, (unsigned char)v)); for (int i = 0; i < 16; ++i) { uuid z = u; z.fill(z[i]); eq("fill with an element of itself", by(z), Bytes(16, b[i])); } }
		for (int j = 0; j < 6; ++j) { uuid x = mk(pattern(j)), y = u; x.swap(y); eq("swap", by(x), b); eq("swap", by(y), pattern(j)); U::swap(x, y); eq("swap function", by(y), b); eq("swap function", by(x), pattern(j)); x.swap(x); eq("swap with itself", by(x), pattern(j)); x = y; eq("=", by(x), b); }
		for (int i = 0; i < 16; ++i) { uuid x = u; x[i] = 77; x.at((i + 5) % 16) = 78; Bytes w = b; w[i] = 77; w[(i + 5) % 16] = 78; eq("writing", by(x), w); *(x.begin() + i) = 1; w[i] = 1; eq("writing through an iterator", by(x), w); *(x.rbegin() + i) = 2; w[15 - i] = 2; eq("writing through a reverse iterator", by(x), w); } }
	{ MC_STATE("nil"); eq("nil_uuid", by(U::nil_uuid()), Bytes(16, 0)); eq("nil_generator", by(U::nil_generator()()), Bytes(16, 0)); }
	{ MC_STATE("namespaces"); eq("dns", hex(by(U::namespace_dns_uuid()), true, false), std::string("6ba7b810-9dad-11d1-80b4-00c04fd430c8")); eq("url", hex(by(U::namespace_url_uuid()), true, false), std::string("6ba7b811-9dad-11d1-80b4-00c04fd430c8")); eq("oid", hex(by(U::namespace_oid_uuid()), true, false), std::string("6ba7b812-9dad-11d1-80b4-00c04fd430c8")); eq("x500", hex(by(U::namespace_x500_uuid()), true, false), std::string("6ba7b814-9dad-11d1-80b4-00c04fd430c8")); }
}
void pair(Bytes const& a, Bytes const& b) { uuid x = mk(a), y = mk(b); eq("==", x == y, a == b); eq("!=", x != y, a != b); eq("<", x < y, a < b); eq(">", x > y, a > b); eq("<=", x <= y, a <= b); eq(">=", x >= y, a >= b); if (a == b) eq("equal hash", so::to_hash(x), so::to_hash(y)); }
MC_SECTION(comparison) {
	// all pairs that differ from a base in at most one place each, over extreme bytes
	unsigned char const vals[] = {0, 1, 0x7f, 0x80, 0xff}; std::vector<Bytes> all; for (int k : {0, 1, 3}) { all.push_back(pattern(k)); for (int i = 0; i < 16; ++i) for (unsigned char v : vals) { Bytes b = pattern(k); b[i] = v; all.push_back(b); } }
	for (auto const& a : all) for (auto const& b : all) { MC_STATE(hex(a, true, false) + " and " + hex(b, true, false)); pair(a, b); }
	// two independent places
	for (int i = 0; i < 16; ++i) for (int j = 0; j < 16; ++j) if (i != j) for (unsigned char p : vals) for (unsigned char q : vals) for (unsigned char r : {0x7f, 0x80}) { Bytes a(16, 0x7f), b(16, 0x7f); a[i] = p; b[i] = r; b[j] = q; MC_STATE(hex(a, true, false) + " and " + hex(b, true, false)); pair(a, b); }
	bound("comparison", "all pairs of 243 values that differ from three patterns in one byte, all two-byte differences over extreme values");
	// every single bit matters to the hash
	std::unordered_set<std::size_t> h; for (int i = 0; i < 128; ++i) { Bytes b = pattern(3); b[i / 8] ^= 1 << (i % 8); h.insert(std::hash<uuid>()(mk(b))); } MC_STATE("hashes of 128 neighbours"); ok("hash separates single-bit neighbours", h.size() > 100);
}
#elif PART == 2
template<class Ch> std::basic_string<Ch> widen(std::string const& s) { std::basic_string<Ch> r; for (unsigned char c : s) r.push_back((Ch)c); return r; }
inline int xd(long c) { return c >= '0' && c <= '9' ? (int)(c - '0') : c >= 'a' && c <= 'f' ? (int)(c - 'a' + 10) : c >= 'A' && c <= 'F' ? (int)(c - 'A' + 10) : -1; }
// recogniser of the documented spellings; text after the uuid is not examined
template<class S> bool want(S const& s, Bytes& out) {
	std::size_t p = 0; auto at = [&](std::size_t i) -> long { return i < s.size() ? (long)s[i] : -1; }; bool brace = at(0) == '{'; if (brace) ++p; bool dash = false; out.clear();
	for (int i = 0; i < 16; ++i) { if (i == 4) { dash = at(p) == '-'; if (dash) ++p; } else if (dash && (i == 6 || i == 8 || i == 10)) { if (at(p) != '-') return false; ++p; } int a = xd(at(p)); if (a < 0) return false; int b = xd(at(p + 1)); if (b < 0) return false; out.push_back((unsigned char)(a * 16 + b)); p += 2; }
	return !brace || at(p) == '}';
}
template<class F> std::string attempt(F const& f) { try { return hex(by(f()), true, false); } catch (std::runtime_error const&) { return "rejected"; } }
template<class Ch> void parse(std::basic_string<Ch> const& t, bool all) {
	Bytes b; std::string w = want(t, b) ? hex(b, true, false) : "rejected"; Ch const* f = t.data(); Ch const* l = f + t.size();
	eq("make_uuid(range)", attempt([&] { return U::make_uuid(f, l); }), w); if (!all) return; if (t.find(Ch()) == t.npos) { eq("make_uuid(text)", attempt([&] { return U::make_uuid(t.c_str()); }), w); eq("string_generator(text)", attempt([&] { return U::string_generator()(t.c_str()); }), w); }
	so::basic_string<Ch, 48> s; for (std::size_t i = 0; i < t.size() && i < 48; ++i) s.push_back(t[i]); eq("make_uuid(string)", attempt([&] { return U::make_uuid(s); }), w); eq("string_generator(string)", attempt([&] { return U::string_generator()(s); }), w); eq("string_generator(range)", attempt([&] { return U::string_generator()(t.begin(), t.end()); }), w);
}
template<class Ch> void stream(std::basic_string<Ch> const& t, bool skipws) {
	Bytes b; std::basic_string<Ch> u = t; std::size_t lead = 0; if (skipws) { while (lead < u.size() && (u[lead] == ' ' || u[lead] == '\n' || u[lead] == '\t' || u[lead] == '\v' || u[lead] == '\f' || u[lead] == '\r')) ++lead; u = u.substr(lead); }
	bool valid = u.size() >= 36 && u[0] != '{' && u[8] == '-' && want(u, b); if (!valid && skipws) { for (std::size_t i = 0; i < u.size(); ++i) if (u[i] == ' ' || (u[i] >= 9 && u[i] <= 13)) return; } // blanks inside: not judged
	std::basic_istringstream<Ch> is(t); if (!skipws) is >> std::noskipws; Bytes before = pattern(3); uuid x = mk(before); is >> x;
	eq("extraction succeeds", !is.fail(), valid); eq("extracted", hex(by(x), true, false), hex(valid ? b : before, true, false)); if (valid) { is.clear(); std::basic_string<Ch> rest; std::getline(is, rest, Ch()); eq("rest of the stream", rest == u.substr(36), true); }
}
template<class Ch> void texts() {
	std::vector<std::string> bases; for (int k : {3, 4}) for (int up = 0; up < 2; ++up) for (int d = 0; d < 2; ++d) for (int br = 0; br < 2; ++br) { std::string s = hex(pattern(k), d, up); if (k == 4) for (std::size_t i = 0; i < s.size(); i += 3) s[i] = (char)(up ? std::tolower(s[i]) : std::toupper(s[i])); bases.push_back(br ? "{" + s + "}" : s); }
	long const most = sizeof(Ch) == 1 ? 255 : 0x3ff; int n = 0;
	for (auto const& s0 : bases) {
		std::basic_string<Ch> s = widen<Ch>(s0); bool few = ++n > 8 && sizeof(Ch) > 1 && !thorough();
		{ MC_STATE("text " + s0); parse(s, true); }
		for (std::size_t i = 0; i <= s.size(); ++i) {
			{ MC_STATE("first " + str(i) + " of " + s0); parse(s.substr(0, i), true); } if (i < s.size()) { MC_STATE(s0 + " without character " + str(i)); auto t = s; t.erase(i, 1); parse(t, true); } if (i + 1 < s.size()) { MC_STATE(s0 + " with characters exchanged at " + str(i)); auto t = s; std::swap(t[i], t[i + 1]); parse(t, true); }
			if (!few) for (long c = 0; c <= most; ++c) { if (i < s.size()) { MC_STATE(s0 + " with character " + str(c) + " at " + str(i)); auto t = s; t[i] = (Ch)c; parse(t, i % 9 == 0 || c < 128); } if (c < 128) { MC_STATE(s0 + " with character " + str(c) + " inserted at " + str(i)); auto t = s; t.insert(i, 1, (Ch)c); parse(t, false); } }
			trace();
		}
	}
	// every presence pattern of the dashes and braces
	for (int m = 0; m < 64; ++m) { std::string s, h = hex(pattern(3), false, false); for (int i = 0; i < 16; ++i) { if (i == 4 && (m & 1)) s += '-'; if (i == 6 && (m & 2)) s += '-'; if (i == 8 && (m & 4)) s += '-'; if (i == 10 && (m & 8)) s += '-'; s += h.substr(2 * i, 2); } if (m & 16) s = "{" + s; if (m & 32) s += "}"; MC_STATE("dashes and braces: " + s); parse(widen<Ch>(s), true); }
}
template<class Ch> void streams() {
	std::string s0 = hex(pattern(3), true, false); std::basic_string<Ch> s = widen<Ch>(s0);
	for (int sk = 0; sk < 2; ++sk) for (std::size_t i = 0; i <= s.size(); ++i) { { MC_STATE("extract first " + str(i) + " skipws " + str(sk)); stream(s.substr(0, i), sk); } for (int c = 1; c < 128; ++c) { MC_STATE("extract with character " + str(c) + " at " + str(i) + " skipws " + str(sk)); auto t = s; if (i < s.size()) { t[i] = (Ch)c; stream(t, sk); } t = s; t.insert(i, 1, (Ch)c); stream(t, sk); } trace(); }
	for (int m = 0; m < 16; ++m) { std::string x, h = hex(pattern(3), false, false); for (int i = 0; i < 16; ++i) { if (i == 4 && (m & 1)) x += '-'; if (i == 6 && (m & 2)) x += '-'; if (i == 8 && (m & 4)) x += '-'; if (i == 10 && (m & 8)) x += '-'; x += h.substr(2 * i, 2); } MC_STATE("extract with dashes " + x); stream(widen<Ch>(x), true); }
	{ MC_STATE("extract two"); std::basic_istringstream<Ch> is(widen<Ch>(hex(pattern(3), true, true) + " \n" + hex(pattern(4), true, false))); uuid a, b; is >> a >> b; eq("two extracted", by(a), pattern(3)); eq("two extracted", by(b), pattern(4)); }
}
template<class Ch> void print(Bytes const& b) {
	typedef std::basic_ostringstream<Ch> OS; uuid u = mk(b); std::basic_string<Ch> w = widen<Ch>(hex(b, true, false)); auto ts = U::to_string_of<Ch>(u); eq("to_string_of", std::basic_string<Ch>(ts.begin(), ts.end()) == w, true); eq("to_string_of size", ts.size(), (std::size_t)36);
	{ OS os; os << u; eq("<<", os.str() == w, true); } uuid r; { std::basic_istringstream<Ch> is(w); is >> r; eq("<< then >>", by(r), b); } eq("make_uuid inverts to_string", by(U::make_uuid(ts)), b);
}
template<class Ch> void formats() {
	typedef std::ios_base B; B::fmtflags adj[] = {B::left, B::right, B::internal}, base[] = {B::dec, B::hex, B::oct, B::fmtflags()}, extra[] = {B::fmtflags(), B::showbase, B::uppercase, B::showpos, B::unitbuf, B::boolalpha | B::showpoint | B::scientific};
	for (int k = 0; k < 6; ++k) for (auto a : adj) for (auto ba : base) for (auto e : extra) for (int wd : {0, 1, 2, 35, 36, 37, 50}) for (char fill : {' ', '*', '0', 'f'}) { Bytes b = pattern(k); MC_STATE("print " + hex(b, true, false) + " flags " + str((long)(a | ba | e)) + " width " + str(wd) + " fill " + str(fill));
		std::basic_ostringstream<Ch> os; os.flags(a | ba | e); os.fill((Ch)fill); os.width(wd); os << mk(b); std::string h = hex(b, true, (e & B::uppercase) != 0); std::string pad(wd > 36 ? wd - 36 : 0, fill); std::string w = (a & B::left) ? h + pad : pad + h; std::string got; for (Ch c : os.str()) got.push_back((char)c); eq("formatted", got, w); eq("flags restored", (long)os.flags(), (long)(a | ba | e)); eq("fill restored", os.fill() == (Ch)fill, true); eq("width reset", (int)os.width(), 0); }
}
MC_SECTION(parse_char) { texts<char>(); } MC_SECTION(parse_wchar) { texts<wchar_t>(); } MC_SECTION(parse_u16) { texts<char16_t>(); } MC_SECTION(parse_u32) { texts<char32_t>(); }
MC_SECTION(extract) { streams<char>(); streams<wchar_t>(); }
MC_SECTION(print) { bytewise([](Bytes const& b) { print<char>(b); print<wchar_t>(b); uuid u = mk(b); auto h = hex(b, true, false); auto s = U::to_string(u); eq("to_string", std::string(s.begin(), s.end()), h); auto w = U::to_wstring(u); eq("to_wstring", std::wstring(w.begin(), w.end()) == widen<wchar_t>(h), true); auto p = U::to_u16string(u); eq("to_u16string", std::u16string(p.begin(), p.end()) == widen<char16_t>(h), true); auto q = U::to_u32string(u); eq("to_u32string", std::u32string(q.begin(), q.end()) == widen<char32_t>(h), true); }); formats<char>(); formats<wchar_t>(); }
#elif PART == 3
template<class Ch> Bytes wide(std::basic_string<Ch> const& s) { Bytes b; for (Ch c : s) for (int i = (int)sizeof(Ch) - 1; i >= 0; --i) b.push_back((unsigned char)((unsigned long)c >> 8 * i)); return b; }
inline Bytes named(Bytes const& ns, Bytes const& name, int version) { Bytes m(ns); m.insert(m.end(), name.begin(), name.end()); Bytes d = version == 3 ? ref::md5(m) : ref::sha1(m); d.resize(16); d[6] = (unsigned char)((d[6] & 0x0f) | version << 4); d[8] = (unsigned char)((d[8] & 0x3f) | 0x80); return d; }
void judge(const char* op, uuid const& u, Bytes const& w, int version) { eq(op, hex(by(u), true, false), hex(w, true, false)); eq("version", (int)u.version(), version); eq("variant", (int)u.variant(), (int)uuid::variant_rfc_4122); }
template<class Ch> std::basic_string<Ch> name_of(int n, Ch mul) { std::basic_string<Ch> t; for (int i = 0; i < n; ++i) t.push_back((Ch)((unsigned char)('!' + (i * 11 + n) % 90) * mul)); return t; }
template<std::size_t N, class Ch> so::basic_string<Ch, N> ss(std::basic_string<Ch> const& s) { so::basic_string<Ch, N> r; for (Ch c : s) r.push_back(c); return r; }
template<class Ch> void names(int max3, int max5, Ch mul, int step) {
	Bytes const nil(16, 0);
	for (int n = 0; n <= max3; n += step) for (int k = 0; k < 3; ++k) { auto t = name_of<Ch>(n, mul); Bytes b = wide(t), ns = k == 0 ? nil : pattern(k + 1); MC_STATE("name of " + str(n) + " characters of " + str((int)sizeof(Ch)) + " bytes in namespace " + str(k)); Bytes w3 = named(ns, b, 3); uuid u = mk(ns);
		judge("make_uuid3(ns, text)", U::make_uuid3(u, t.c_str()), w3, 3); judge("md5_name_generator(text)", U::md5_name_generator(u)(t.c_str()), w3, 3); judge("make_uuid3(ns)(text)", U::make_uuid3(u)(t.c_str()), w3, 3); auto s = ss<200>(t); judge("make_uuid3(ns, string)", U::make_uuid3(u, s), w3, 3); if (k == 0) { judge("make_uuid3(text)", U::make_uuid3(t.c_str()), w3, 3); judge("make_uuid3(string)", U::make_uuid3(s), w3, 3); judge("make_uuid3()(text)", U::make_uuid3()(t.c_str()), w3, 3); }
		if (n <= max5) { Bytes w5 = named(ns, b, 5); switch ((n + k) % 3) { case 0: judge("make_uuid5(ns, text)", U::make_uuid5(u, t.c_str()), w5, 5); break; case 1: judge("make_uuid5(ns)(text)", U::make_uuid5(u)(t.c_str()), w5, 5); break; default: judge("sha1_name_generator(text)", U::sha1_name_generator(u)(t.c_str()), w5, 5); } if (sizeof(Ch) == 1) { judge("make_uuid5(ns, string)", U::make_uuid5(u, s), w5, 5); if (k == 0) { judge("make_uuid5(text)", U::make_uuid5(t.c_str()), w5, 5); judge("make_uuid5(string)", U::make_uuid5(s), w5, 5); judge("make_uuid5()(text)", U::make_uuid5()(t.c_str()), w5, 5); } } } trace(); }
}
#if SUB == 1
MC_SECTION(names_char) { ok("the reference digests reproduce the published vectors", ref::self_test()); names<char>(200, thorough() ? 200 : 130, 1, 1);
	for (int n = 0; n < 4; ++n) { std::string t = n == 0 ? "www.example.org" : n == 1 ? "" : n == 2 ? std::string("a\0b", 3) : "\xff\x80"; Bytes b(t.begin(), t.end()); auto s = ss<20>(t); MC_STATE("name " + str(t)); struct N { Bytes ns; U::md5_name_generator g; U::sha1_name_generator h; } all[] = {{by(U::namespace_dns_uuid()), U::make_uuid3_dns(), U::make_uuid5_dns()}, {by(U::namespace_url_uuid()), U::make_uuid3_url(), U::make_uuid5_url()}, {by(U::namespace_oid_uuid()), U::make_uuid3_oid(), U::make_uuid5_oid()}, {by(U::namespace_x500_uuid()), U::make_uuid3_x500(), U::make_uuid5_x500()}}; for (auto& a : all) { judge("named namespace", a.g(s), named(a.ns, b, 3), 3); judge("named namespace", a.h(s), named(a.ns, b, 5), 5); } }
}
#else
MC_SECTION(names_wide) { names<wchar_t>(60, 20, 1, 3); names<wchar_t>(40, 20, 257, 3); names<char16_t>(60, 20, 256, 3); names<char32_t>(40, 10, 0x010001, 3); }
template<class Ch> std::basic_string<Ch> widen(std::string const& s) { std::basic_string<Ch> r; for (unsigned char c : s) r.push_back((Ch)c); return r; }
template<class Ch> void lit(std::string const& s, Bytes const& ns) {
	using namespace sprout::literals::uuids; auto t = widen<Ch>(s); auto name = name_of<Ch>(9, 1); Bytes b = wide(name); MC_STATE("literal " + s + " of " + str((int)sizeof(Ch)) + " bytes"); bool bad = ns.empty(); std::string g3, g5; 
	try { g3 = hex(by(sprout::literals::uuids::operator"" _uuid3(t.c_str(), t.size())(name.c_str())), true, false); } catch (std::runtime_error const&) { g3 = "rejected"; } try { g5 = hex(by(sprout::literals::uuids::operator"" _uuid5(t.c_str(), t.size())(name.c_str())), true, false); } catch (std::runtime_error const&) { g5 = "rejected"; }
	eq("_uuid3", g3, bad ? std::string("rejected") : hex(named(ns, b, 3), true, false)); eq("_uuid5", g5, bad ? std::string("rejected") : hex(named(ns, b, 5), true, false));
	std::string g; try { g = hex(by(sprout::literals::uuids::operator"" _uuid(t.c_str(), t.size())), true, false); } catch (std::runtime_error const&) { g = "rejected"; } eq("_uuid", g, s.size() >= 32 && !bad ? hex(ns, true, false) : std::string("rejected"));
}
template<class Ch> void lits() {
	Bytes ns[] = {by(U::namespace_dns_uuid()), by(U::namespace_url_uuid()), by(U::namespace_oid_uuid()), by(U::namespace_x500_uuid())}; char const* nm[] = {"dns", "url", "oid", "x500"};
	for (int i = 0; i < 4; ++i) { int n = (int)std::strlen(nm[i]); for (int m = 0; m < 1 << n; ++m) { std::string s = nm[i]; for (int j = 0; j < n; ++j) if (m >> j & 1) s[j] = (char)std::toupper(s[j]); if (s[0] == 'x' || s[0] == 'X') { if (m >= 2) continue; } lit<Ch>(s, ns[i]); if (m) continue; for (int j = 0; j <= n; ++j) { if (j < n) lit<Ch>(s.substr(0, j), Bytes()); std::string t = s; t.insert(j, 1, 'q'); lit<Ch>(t, Bytes()); if (j < n) { t = s; t[j] = '9'; lit<Ch>(t, Bytes()); } } } }
	for (int k = 0; k < 6; ++k) for (int f = 0; f < 8; ++f) { std::string s = hex(pattern(k), f & 1, f & 2); lit<Ch>(f & 4 ? "{" + s + "}" : s, pattern(k)); }
	// a literal ends where its length says, whatever follows it in memory
	for (int f = 0; f < 8; ++f) { std::string s = hex(pattern(1), f & 1, f & 2); auto t = widen<Ch>(f & 4 ? "{" + s + "}" : s); for (std::size_t n = 0; n < t.size(); ++n) { MC_STATE("first " + str((int)n) + " characters of literal " + s + " of " + str((int)sizeof(Ch)) + " bytes"); using namespace sprout::literals::uuids; std::string g; try { g = hex(by(sprout::literals::uuids::operator"" _uuid(t.c_str(), n)), true, false); } catch (std::runtime_error const&) { g = "rejected"; } eq("_uuid of a part", g, std::string("rejected")); trace(); } }
}
MC_SECTION(literals) { lits<char>(); lits<wchar_t>(); lits<char16_t>(); lits<char32_t>(); }
// an engine that plays a given list of draws
struct Play { typedef std::uint32_t result_type; std::vector<std::uint32_t> const* v; std::size_t i; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } so::random::random_result<Play> operator()() const { return so::random::random_result<Play>((*v)[i % v->size()], Play{v, i + 1}); } };
void rnd(const char* op, uuid const& u) { eq(op, (int)u.version(), 4); eq(op, (int)u.variant(), (int)uuid::variant_rfc_4122); }
MC_SECTION(random) {
	// every bit of the result except the version and the variant is decided by exactly one bit of the source
	for (int base = 0; base < 3; ++base) { std::vector<std::uint32_t> d(4, base == 0 ? 0 : base == 1 ? 0xffffffffu : 0x5a5a3c3cu); Bytes z = by(U::make_uuid4(Play{&d, 0})); std::vector<int> hits(128, 0);
		for (int i = 0; i < 128; ++i) { auto e = d; e[i / 32] ^= 1u << (i % 32); MC_STATE("source " + str(base) + " with bit " + str(i) + " changed"); uuid u = U::make_uuid4(Play{&e, 0}); rnd("random uuid", u); Bytes b = by(u); int n = 0; for (int j = 0; j < 128; ++j) if ((b[j / 8] ^ z[j / 8]) >> (7 - j % 8) & 1) { ++hits[j]; ++n; } ok("one bit of the source changes at most one bit", n <= 1); trace(); }
		MC_STATE("coverage of source " + str(base)); for (int j = 0; j < 128; ++j) { bool fixed = (j >= 48 && j < 52) || j == 64 || j == 65; eq("bits decided by the source", hits[j], fixed ? 0 : 1); } }
	for (unsigned s = 0; s < 3000u; ++s) { MC_STATE("seed " + str(s)); rnd("make_uuid4(seed)", U::make_uuid4(s)); uuid u = U::random_generator()(s); rnd("random_generator", u); eq("same seed, same uuid", u == U::make_uuid4(s), true); rnd("mt19937", U::make_uuid4(so::random::minstd_rand(s))); rnd("minstd", U::basic_random_generator<so::random::minstd_rand0>()(s)); rnd("signed seed", U::make_uuid4(-(int)s)); rnd("long seed", U::make_uuid4((long)s << 20)); }
	for (unsigned s = 0; s < 20u; ++s) { MC_STATE("mersenne twister seed " + str(s)); rnd("mt19937", U::make_uuid4(so::random::mt19937(s))); rnd("taus88", U::make_uuid4(so::random::taus88(s)));  rnd("kreutzer1986", U::make_uuid4(so::random::knuth_b(s))); }
}
#endif
#endif
