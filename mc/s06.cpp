// S06: C string and memory functions agree with the C library
#include "mc.hpp"
#include "guard.hpp"
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <cstring>
#include <cwchar>
using namespace mc; typedef std::string S;
static S q(S const& s) { S r; for (char c : s) if (c == 0) r += "\\0"; else if ((unsigned char)c >= 128 || c < 32) { char b[8]; std::snprintf(b, 8, "\\x%02x", (unsigned char)c); r += b; } else r += c; return "\"" + r + "\""; }
static int sgn(int x) { return (x > 0) - (x < 0); }
template<class E> struct Lib;
template<> struct Lib<char> { typedef char E; static const char* name() { return "char"; }
	static size_t len(const E* s) { return std::strlen(s); } static int cmp(const E* a, const E* b) { return std::strcmp(a, b); } static int ncmp(const E* a, const E* b, size_t n) { return std::strncmp(a, b, n); }
	static const E* chr(const E* s, E c) { return std::strchr(s, c); } static const E* rchr(const E* s, E c) { return std::strrchr(s, c); } static const E* str(const E* s, const E* t) { return std::strstr(s, t); } static const E* pbrk(const E* s, const E* t) { return std::strpbrk(s, t); } static size_t spn(const E* s, const E* t) { return std::strspn(s, t); } static size_t cspn(const E* s, const E* t) { return std::strcspn(s, t); } };
template<> struct Lib<wchar_t> { typedef wchar_t E; static const char* name() { return "wchar_t"; }
	static size_t len(const E* s) { return std::wcslen(s); } static int cmp(const E* a, const E* b) { return std::wcscmp(a, b); } static int ncmp(const E* a, const E* b, size_t n) { return std::wcsncmp(a, b, n); }
	static const E* chr(const E* s, E c) { return std::wcschr(s, c); } static const E* rchr(const E* s, E c) { return std::wcsrchr(s, c); } static const E* str(const E* s, const E* t) { return std::wcsstr(s, t); } static const E* pbrk(const E* s, const E* t) { return std::wcspbrk(s, t); } static size_t spn(const E* s, const E* t) { return std::wcsspn(s, t); } static size_t cspn(const E* s, const E* t) { return std::wcscspn(s, t); } };
template<> struct Lib<char16_t> { typedef char16_t E; typedef std::basic_string<E> T; static const char* name() { return "char16_t"; }
	static size_t len(const E* s) { return T(s).size(); } static int cmp(const E* a, const E* b) { return T(a).compare(b); } static int ncmp(const E* a, const E* b, size_t n) { size_t i = 0; for (; i < n; ++i) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) break; } return 0; }
	static const E* at(const E* s, size_t i) { return i == T::npos ? 0 : s + i; }
	static const E* chr(const E* s, E c) { return c ? at(s, T(s).find(c)) : s + len(s); } static const E* rchr(const E* s, E c) { return c ? at(s, T(s).rfind(c)) : s + len(s); } static const E* str(const E* s, const E* t) { return at(s, T(s).find(t)); } static const E* pbrk(const E* s, const E* t) { return at(s, T(s).find_first_of(t)); } static size_t spn(const E* s, const E* t) { size_t i = T(s).find_first_not_of(t); return i == T::npos ? len(s) : i; } static size_t cspn(const E* s, const E* t) { size_t i = T(s).find_first_of(t); return i == T::npos ? len(s) : i; } };
// the functions of the C names; wide forms also through the wcs names
template<class E> struct Named { static void one(const E*, E*, E) {} static void two(const E*, E*, const E*, std::vector<size_t> const&) {} };
#define FN(op, got, want) eq(op, got, want)
template<> struct Named<wchar_t> { typedef wchar_t E; typedef Lib<E> L;
	static void one(const E* s, E* m, E c) { FN("wcschr", sprout::wcschr(s, c) == L::chr(s, c), true); FN("wcschr mutable", sprout::wcschr(m, c) == L::chr(m, c), true); FN("wcsrchr", sprout::wcsrchr(s, c) == L::rchr(s, c), true); FN("wcsrchr mutable", sprout::wcsrchr(m, c) == L::rchr(m, c), true); FN("wcslen", sprout::wcslen(s), L::len(s)); }
	static void two(const E* a, E* m, const E* b, std::vector<size_t> const& ns) { FN("wcscmp", sgn(sprout::wcscmp(a, b)), sgn(L::cmp(a, b))); FN("wcscoll", sgn(sprout::wcscoll(a, b)), sgn(L::cmp(a, b))); for (size_t n : ns) FN("wcsncmp", sgn(sprout::wcsncmp(a, b, n)), sgn(L::ncmp(a, b, n))); FN("wcsstr", sprout::wcsstr(a, b) == L::str(a, b), true); FN("wcsstr mutable", sprout::wcsstr(m, b) == L::str(m, b), true); FN("wcspbrk", sprout::wcspbrk(a, b) == L::pbrk(a, b), true); FN("wcspbrk mutable", sprout::wcspbrk(m, b) == L::pbrk(m, b), true); FN("wcsspn", sprout::wcsspn(a, b), L::spn(a, b)); FN("wcscspn", sprout::wcscspn(a, b), L::cspn(a, b)); } };
template<class E> S qe(std::basic_string<E> const& s) { S r = "["; for (E c : s) r += std::to_string((long)c) + " "; return r + "]"; }
template<class E> std::vector<std::basic_string<E> > texts(int n, E const* al, int k) { std::vector<std::basic_string<E> > r; sequences_upto(n, k, [&](std::vector<int> const& v) { std::basic_string<E> s; for (int x : v) s += al[x]; r.push_back(s); }); return r; }
template<class E> void search(E const* al, int k, int n1, int n2) {
	typedef Lib<E> L; typedef std::basic_string<E> T; std::vector<T> ts = texts<E>(n1, al, k), us = texts<E>(n2, al, k); Guard g1, g2, g3;
	bound(S(L::name()) + " strings", "every string up to " + str(n1) + " and second string up to " + str(n2) + " over " + str(k) + " characters, every character, counts 0-6 and maximal; both end at an unmapped page");
	for (T const& t : ts) {
		const E* a = g1.put(t.c_str(), t.size() + 1); E* m = g2.put(t.c_str(), t.size() + 1);
		{ MC_STATE(S(L::name()) + " " + qe(t)); trace(); eq("strlen", sprout::strlen(a), L::len(a)); eq("strlen mutable", sprout::strlen(m), L::len(m));
		  for (int i = 0; i <= k; ++i) { E c = i < k ? al[i] : E(); eq("strchr", sprout::strchr(a, c) == L::chr(a, c), true); eq("strchr mutable", sprout::strchr(m, c) == L::chr(m, c), true); eq("strrchr", sprout::strrchr(a, c) == L::rchr(a, c), true); eq("strrchr mutable", sprout::strrchr(m, c) == L::rchr(m, c), true); Named<E>::one(a, m, c); } }
		for (T const& u : us) {
			MC_STATE(S(L::name()) + " " + qe(t) + " " + qe(u)); trace(); const E* b = g3.put(u.c_str(), u.size() + 1);
			eq("strcmp", sgn(sprout::strcmp(a, b)), sgn(L::cmp(a, b))); eq("strcmp reversed", sgn(sprout::strcmp(b, a)), sgn(L::cmp(b, a))); eq("strcoll", sgn(sprout::strcoll(a, b)), sgn(L::cmp(a, b)));
			std::vector<size_t> ns = {0, 1, 2, 3, 4, 5, 6, (size_t)-1}; for (size_t n : ns) eq("strncmp", sgn(sprout::strncmp(a, b, n)), sgn(L::ncmp(a, b, n)));
			eq("strstr", sprout::strstr(a, b) == L::str(a, b), true); eq("strstr mutable", sprout::strstr(m, b) == L::str(m, b), true); eq("strpbrk", sprout::strpbrk(a, b) == L::pbrk(a, b), true); eq("strpbrk mutable", sprout::strpbrk(m, b) == L::pbrk(m, b), true); eq("strspn", sprout::strspn(a, b), L::spn(a, b)); eq("strcspn", sprout::strcspn(a, b), L::cspn(a, b));
			Named<E>::two(a, m, b, ns);
			if (t.size() <= 4 && u.size() <= 4) { // unterminated buffers of exactly n characters
				size_t n = t.size() < u.size() ? t.size() : u.size(); const E* x = g1.put(t.data(), n); const E* y = g3.put(u.data(), n); eq("strncmp unterminated", sgn(sprout::strncmp(x, y, n)), sgn(L::ncmp(x, y, n))); a = g1.put(t.c_str(), t.size() + 1);
			}
		}
	}
}
static const char CA[] = {'a', 'b', '\xff', '\x80', 'c'}; static const wchar_t WA[] = {L'a', -1, 0x12345, L'b'}; static const char16_t UA[] = {u'a', 0xffff, u'b'};
MC_SECTION(s06_char) { search<char>(CA, 3, thorough() ? 6 : 5, 4); }
MC_SECTION(s06_char4) { search<char>(CA, 4, 4, 3); }
MC_SECTION(s06_char2) { static const char al[] = "ab"; search<char>(al, 2, thorough() ? 9 : 8, 5); }
MC_SECTION(s06_wchar) { search<wchar_t>(WA, 3, 4, 3); }
MC_SECTION(s06_u16) { search<char16_t>(UA, 3, 4, 3); }
MC_SECTION(s06_int_argument) { // the int argument is converted to char
	bound("int arguments", "-300..600 for strchr, strrchr, memchr, memset"); Guard g; const char* s = g.put("ab\xff\x01", 5); char* m = (char*)s; unsigned char u[4] = {'a', 0xff, 1, 0};
	for (int c = -300; c <= 600; ++c) { MC_STATE("int " + str(c)); trace(); eq("strchr(int)", sprout::strchr(s, c) == std::strchr(s, c), true); eq("strrchr(int)", sprout::strrchr(s, c) == std::strrchr(s, c), true); eq("strchr(mutable, int)", sprout::strchr(m, c) == std::strchr(m, c), true);
		eq("memchr(int)", sprout::memchr(s, c, 5) == std::memchr(s, c, 5), true); eq("memchr(unsigned, int)", sprout::memchr(u, c, 4) == std::memchr(u, c, 4), true); unsigned char a[3] = {9, 9, 9}, b[3] = {9, 9, 9}; sprout::memset(a, c, 2); std::memset(b, c, 2); eq("memset(int)", std::memcmp(a, b, 3), 0); }
}
// memory functions on every pointer type
template<class T> void mem(std::vector<T> const& a, std::vector<T> const& b, size_t bytes) {
	static Guard g1, g2; T* x = g1.put(a.data(), a.size()); T* y = g2.put(b.data(), b.size());
	eq("memcmp", sgn(sprout::memcmp(x, y, bytes)), sgn(std::memcmp(x, y, bytes))); eq("memcmp const", sgn(sprout::memcmp((const T*)x, (const T*)y, bytes)), sgn(std::memcmp(x, y, bytes))); eq("memcmp void", sgn(sprout::memcmp((const void*)x, (const void*)y, bytes)), sgn(std::memcmp(x, y, bytes)));
	unsigned char want = bytes ? ((unsigned char*)y)[bytes - 1] : 1; eq("memchr", sprout::memchr((const T*)x, want, bytes) == std::memchr(x, want, bytes), true); eq("memchr mutable", sprout::memchr(x, want, bytes) == std::memchr(x, want, bytes), true); eq("memchr void", sprout::memchr((void*)x, want, bytes) == std::memchr(x, want, bytes), true);
	eq("memcpy result", sprout::memcpy(x, (const T*)y, bytes) == x, true); eq("memcpy", std::memcmp(x, y, bytes), 0); ok("memcpy rest", std::memcmp((char*)x + bytes, (const char*)a.data() + bytes, a.size() * sizeof(T) - bytes) == 0); ok("memcpy before", g1.before_intact());
	std::memcpy(x, a.data(), a.size() * sizeof(T)); eq("memcpy void", sprout::memcpy((void*)x, (const void*)y, bytes) == x && std::memcmp(x, y, bytes) == 0, true);
	eq("memset result", sprout::memset(x, 0x1c3, bytes) == x, true); for (size_t i = 0; i < a.size() * sizeof(T); ++i) eq("memset", (int)((unsigned char*)x)[i], (int)(i < bytes ? 0xc3 : ((unsigned char const*)a.data())[i])); ok("memset before", g1.before_intact());
}
MC_SECTION(s06_memory) {
	bound("memory", "every pair of byte strings up to 4 over {0, 1, 0x7f, 0x80, 0xff}, every count; int and unsigned char objects");
	static const char al[] = {0, 1, 0x7f, (char)0x80, (char)0xff};
	for (S const& a : texts<char>(3, al, 5)) for (S const& b : texts<char>(3, al, 5)) if (a.size() == b.size()) for (size_t n = 0; n <= a.size(); ++n) { MC_STATE(q(a) + " " + q(b) + " " + str(n)); trace(); mem<char>(std::vector<char>(a.begin(), a.end()), std::vector<char>(b.begin(), b.end()), n); mem<unsigned char>(std::vector<unsigned char>(a.begin(), a.end()), std::vector<unsigned char>(b.begin(), b.end()), n); }
	std::vector<int> iv = {0, 1, -1, 256, 0x7fffffff, (int)0x80000000}; for (int i : iv) for (int j : iv) for (int k : iv) for (size_t n = 0; n <= 8; ++n) { MC_STATE("ints " + str(i) + " " + str(j) + " " + str(k) + " " + str(n)); trace(); mem<int>({i, j}, {k, i}, n); }
}
// copies: the destination has exactly the room the C function may write
template<class E> struct Copy {
	typedef std::basic_string<E> T;
	template<class F> static void chk(const char* op, T const& before, size_t room, T const& want, F const& f) { // want: the first want.size() characters afterwards; the rest stays
		static Guard g; T buf = before; buf.resize(room, E('#')); E* d = g.put(buf.data(), room); E* r = f(d); ok("copy result", r == d); T got(d, room), full = want + buf.substr(want.size()); eq(op, qe(got), qe(full)); ok("copy before", g.before_intact());
	}
	static void run(E const* al, int k, int n, bool wide) {
		Guard gs; for (T const& s : texts<E>(n, al, k)) {
			const E* p = gs.put(s.c_str(), s.size() + 1); T z = s + E(); { MC_STATE("copy " + qe(s)); trace();
			chk("strcpy", T(), z.size(), z, [&](E* d) { return sprout::strcpy(d, p); }); chk("strcpy room", T(), z.size() + 2, z, [&](E* d) { return sprout::strcpy(d, p); });
			for (size_t c = 0; c <= s.size() + 3; ++c) { T w = s.substr(0, c); w.resize(c, E()); if (c < s.size()) { const E* u = gs.put(s.data(), c); chk("strncpy unterminated", T(), c, w, [&](E* d) { return sprout::strncpy(d, u, c); }); p = gs.put(s.c_str(), s.size() + 1); } chk("strncpy", T(), c, w, [&](E* d) { return sprout::strncpy(d, p, c); }); chk("strncpy room", T(), c + 2, w, [&](E* d) { return sprout::strncpy(d, p, c); }); } }
			for (T const& h : texts<E>(n - 1, al, k)) { MC_STATE("append " + qe(h) + qe(s)); trace();
				chk("strcat", h + E(), h.size() + z.size(), h + z, [&](E* d) { return sprout::strcat(d, p); }); chk("strcat room", h + E(), h.size() + z.size() + 2, h + z, [&](E* d) { return sprout::strcat(d, p); });
				for (size_t c = 0; c <= s.size() + 2; ++c) { T w = h + s.substr(0, c) + E(); chk("strncat", h + E(), w.size(), w, [&](E* d) { return sprout::strncat(d, p, c); }); chk("strncat room", h + E(), w.size() + 2, w, [&](E* d) { return sprout::strncat(d, p, c); }); if (c <= s.size()) { const E* u = gs.put(s.data(), c); chk("strncat unterminated", h + E(), w.size(), w, [&](E* d) { return sprout::strncat(d, u, c); }); p = gs.put(s.c_str(), s.size() + 1); } }
				chk("strncat max", h + E(), h.size() + z.size(), h + z, [&](E* d) { return sprout::strncat(d, p, (size_t)-1); }); }
		}
		(void)wide;
	}
};
MC_SECTION(s06_copy) { bound("copies", "every source up to 4 over 3 characters (destination contents up to 3), every count, exactly sized destinations"); Copy<char>::run(CA, 3, 4, false); Copy<wchar_t>::run(WA, 2, 4, true); Copy<char16_t>::run(UA, 2, 3, false); }
MC_SECTION(s06_wide_names) {
	Guard g, g2; typedef std::wstring T; static const wchar_t al[] = {L'a', -5, 0};
	for (T const& s : texts<wchar_t>(4, al, 3)) for (size_t n = 0; n <= s.size(); ++n) { MC_STATE("wide " + qe(s) + str(n)); trace(); const wchar_t* p = g.put(s.data(), s.size());
		for (wchar_t c : {L'a', (wchar_t)-5, (wchar_t)0, L'z'}) { eq("wmemchr", sprout::wmemchr(p, c, n) == std::wmemchr(p, c, n), true); eq("wmemchr mutable", sprout::wmemchr((wchar_t*)p, c, n) == std::wmemchr(p, c, n), true); }
		for (T const& t : texts<wchar_t>(3, al, 3)) if (t.size() >= n) { const wchar_t* r = g2.put(t.data(), t.size()); eq("wmemcmp", sgn(sprout::wmemcmp(p, r, n)), sgn(std::wmemcmp(p, r, n))); }
		T w = s.substr(0, n); Copy<wchar_t>::chk("wmemcpy", T(), n + 1, w, [&](wchar_t* d) { return sprout::wmemcpy(d, p, n); }); Copy<wchar_t>::chk("wmemmove", T(), n + 1, w, [&](wchar_t* d) { return sprout::wmemmove(d, p, n); }); Copy<wchar_t>::chk("wmemset", T(), n + 1, T(n, L'q'), [&](wchar_t* d) { return sprout::wmemset(d, L'q', n); });
		if (s.find(L'\0') == T::npos) { const wchar_t* z = g.put(s.c_str(), s.size() + 1); T zz = s + L'\0'; Copy<wchar_t>::chk("wcscpy", T(), zz.size(), zz, [&](wchar_t* d) { return sprout::wcscpy(d, z); }); Copy<wchar_t>::chk("wcscat", T(L"x") + L'\0', zz.size() + 1, L"x" + zz, [&](wchar_t* d) { return sprout::wcscat(d, z); }); T wn = w; Copy<wchar_t>::chk("wcsncpy", T(), n, wn, [&](wchar_t* d) { return sprout::wcsncpy(d, z, n); }); Copy<wchar_t>::chk("wcsncat", T(L"x") + L'\0', n + 2, L"x" + w + L'\0', [&](wchar_t* d) { return sprout::wcsncat(d, z, n); }); } }
}
// overlapping moves inside one buffer: every source, destination and count
template<class T> void moves(const char* name) {
	for (int n = 0; n <= 7; ++n) for (int s = 0; s <= n; ++s) for (int d = 0; d <= n; ++d) for (int c = 0; c + (s > d ? s : d) <= n; ++c) { MC_STATE(S(name) + " move " + str(s) + "->" + str(d) + " x" + str(c) + " of " + str(n)); trace(); std::vector<T> a, b; for (int i = 0; i < n; ++i) a.push_back((T)(i + 1)); b = a; static Guard g; T* x = g.put(a.data(), a.size()); ok("memmove result", sprout::memmove(x + d, x + s, c * sizeof(T)) == x + d); if (n) std::memmove(b.data() + d, b.data() + s, c * sizeof(T)); ok("memmove", n == 0 || std::memcmp(x, b.data(), n * sizeof(T)) == 0); ok("memmove before", g.before_intact()); }
}
MC_SECTION(s06_move) { bound("moves", "every source, destination and count inside buffers up to 7 elements"); moves<unsigned char>("byte"); moves<char>("char"); moves<int>("int"); moves<wchar_t>("wchar_t");
	for (int n = 0; n <= 7; ++n) for (int s = 0; s <= n; ++s) for (int d = 0; d <= n; ++d) for (int c = 0; c + (s > d ? s : d) <= n; ++c) { MC_STATE("wmemmove " + str(s) + "->" + str(d) + " x" + str(c) + " of " + str(n)); std::vector<wchar_t> a, b; for (int i = 0; i < n; ++i) a.push_back((wchar_t)(i + 1)); b = a; a.push_back(0); b.push_back(0); sprout::wmemmove(a.data() + d, a.data() + s, c); std::wmemmove(b.data() + d, b.data() + s, c); ok("wmemmove overlap", a == b); } }
