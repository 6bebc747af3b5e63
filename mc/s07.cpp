// S07: character classification and case conversion agree with the C locale
#include "mc.hpp"
#include <sprout/cctype.hpp>
#include <sprout/cwctype.hpp>
#include <sprout/ctype/functor.hpp>
#include <cctype>
#include <cwctype>
#include <locale>
using namespace mc; typedef std::string S;
#define CLASSES(X) X(alnum) X(alpha) X(blank) X(cntrl) X(digit) X(graph) X(lower) X(print) X(punct) X(space) X(upper) X(xdigit)
namespace ct = sprout::ctypes;
static bool lib(int k, long c) { // the C locale knows the classes of 0-127 only
	if (c < 0 || c > 127) return false; int i = (int)c; int n = 0;
#define X(NAME) if (k == n++) return std::is##NAME(i) != 0;
	CLASSES(X)
#undef X
	return false;
}
template<class E> E lib_lower(E c) { return c >= 0 && c < 128 ? (E)std::tolower((int)c) : c; } template<class E> E lib_upper(E c) { return c >= 0 && c < 128 ? (E)std::toupper((int)c) : c; }
static const char* names[] = {
#define X(NAME) #NAME,
	CLASSES(X)
#undef X
};
static ct::mask masks[] = {
#define X(NAME) ct::NAME,
	CLASSES(X)
#undef X
};
static std::ctype_base::mask smasks[] = {
#define X(NAME) std::ctype_base::NAME,
	CLASSES(X)
#undef X
};
template<class E> void chars(const char* type, long lo, long hi) {
	for (long v = lo; v <= hi; ++v) {
		E c = (E)v; MC_STATE(S(type) + " " + str(v)); trace(); int n = 0;
#define X(NAME) eq("is" #NAME, sprout::is##NAME(c), lib(n, v)); eq("is_" #NAME, ct::is_##NAME<E>()(c), lib(n, v)); eq("is_" #NAME "<>", ct::is_##NAME<>()(c), lib(n, v)); ++n;
		CLASSES(X)
#undef X
		eq("tolower", (long)sprout::tolower(c), (long)lib_lower(c)); eq("toupper", (long)sprout::toupper(c), (long)lib_upper(c)); eq("to_lower", (long)ct::to_lower<E>()(c), (long)lib_lower(c)); eq("to_upper", (long)ct::to_upper<E>()(c), (long)lib_upper(c));
		eq("to_lower<>", (long)ct::to_lower<>()(c), (long)lib_lower(c)); eq("to_upper<>", (long)ct::to_upper<>()(c), (long)lib_upper(c));
	}
}
MC_SECTION(s07_char) { bound("char", "all 256 codes"); chars<char>("char", -128, 127); }
MC_SECTION(s07_char16) { bound("char16_t", "all 65536 codes"); chars<char16_t>("char16_t", 0, 65535); }
MC_SECTION(s07_wchar) { bound("wchar_t", "-1000 to 0x11000 (thorough: to 0x110000), and the extremes"); chars<wchar_t>("wchar_t", -1000, thorough() ? 0x110000 : 0x11000); chars<wchar_t>("wchar_t", 0x7fffff00, 0x7fffffff); chars<wchar_t>("wchar_t", -0x7fffffffL - 1, -0x7fffff00L); chars<char32_t>("char32_t", 0, 0x2000); chars<char32_t>("char32_t", 0xfffff000L, 0xffffffffL); }
MC_SECTION(s07_wide_names) {
	bound("wide names", "every code from -1000 to 0x2000 with isw*, tow*");
	for (long v = -1000; v <= 0x2000; ++v) { wchar_t c = (wchar_t)v; MC_STATE("isw " + str(v)); trace(); int n = 0;
#define X(NAME) eq("isw" #NAME, sprout::isw##NAME(c), lib(n++, v)); if (v >= 0 && v < 128) eq("isw" #NAME " and the library", sprout::isw##NAME(c), std::isw##NAME((wint_t)c) != 0);
		CLASSES(X)
#undef X
		eq("towlower", (long)sprout::towlower(c), (long)lib_lower(c)); eq("towupper", (long)sprout::towupper(c), (long)lib_upper(c)); }
}
MC_SECTION(s07_masks) { // every set of classes
	bound("masks", "every subset of the 12 classes with every char");
	std::ctype<char> const& f = std::use_facet<std::ctype<char> >(std::locale::classic());
	for (int s = 0; s < 4096; ++s) { ct::mask m = ct::mask(0); std::ctype_base::mask sm = std::ctype_base::mask(); S name; for (int k = 0; k < 12; ++k) if (s >> k & 1) { m = m | masks[k]; sm = sm | smasks[k]; name += S(names[k]) + " "; }
		for (int v = -128; v < 128; ++v) { char c = (char)v; MC_STATE("mask " + name + "char " + str(v)); trace(); bool want = v >= 0 && f.is(sm, c);
			eq("isclassified", sprout::isclassified(m, c), want); eq("iswclassified", sprout::iswclassified(m, (wchar_t)v), want); eq("is_classified", ct::is_classified<char>(m)(c), want); eq("is_classified<>", ct::is_classified<>(m)(c), want); eq("isclassified(char16_t)", sprout::isclassified(m, (char16_t)v), want); eq("isclassified(char32_t)", sprout::isclassified(m, (char32_t)v), want); eq("isclassified(wchar_t)", sprout::isclassified(m, (wchar_t)v), want); } }
}
MC_SECTION(s07_nocase) {
	bound("nocase", "all 65536 pairs of chars, and narrow/wide pairs");
	for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) { MC_STATE("nocase " + str(a) + " " + str(b)); trace(); bool want = lib_lower((char)a) == lib_lower((char)b);
		eq("nocase_equal_to", ct::nocase_equal_to<char>()((char)a, (char)b), want); eq("nocase_not_equal_to", ct::nocase_not_equal_to<char>()((char)a, (char)b), !want);
		eq("nocase_equal_to<>", ct::nocase_equal_to<>()((char)a, (char)b), want); eq("nocase_not_equal_to<>", ct::nocase_not_equal_to<>()((char)a, (char)b), !want);
		eq("nocase_equal_to wide", ct::nocase_equal_to<>()((char)a, (wchar_t)b), want); }
}
static_assert(sprout::isalpha('a') && !sprout::isalpha('1') && sprout::tolower('A') == 'a' && sprout::isclassified(ct::digit, '1') && !sprout::isclassified(ct::digit, 'a'), "");
