// F01: function objects, binders, negators, member adaptors and reference wrappers call what they were given.
// Oracle: the operator written out, the standard library's counterpart, and terms that record who was called with what.
#include "mc.hpp"
#include <sprout/functional.hpp>
#include <functional>
#include <memory>
using namespace mc; typedef std::string S;
#ifndef PART
#define PART 0
#endif
// a value that remembers how it was made
struct V { S s; V() {} V(S const& t) : s(t) {} V(const char* t) : s(t) {} };
inline S cat(V&) { return "&"; } inline S cat(V const&) { return "c&"; } inline S cat(V&&) { return "&&"; } inline S cat(V const&&) { return "c&&"; }
#define BIN(OP) inline V operator OP(V const& a, V const& b) { return V("(" + a.s + #OP + b.s + ")"); }
BIN(+) BIN(-) BIN(*) BIN(/) BIN(%) BIN(&) BIN(|) BIN(^) BIN(<<) BIN(>>)
#define ASG(OP) inline V& operator OP(V& a, V const& b) { a.s = "(" + a.s + #OP + b.s + ")"; return a; }
ASG(+=) ASG(-=) ASG(*=) ASG(/=) ASG(%=) ASG(&=) ASG(|=) ASG(^=) ASG(<<=) ASG(>>=)
inline V operator-(V const& a) { return V("-" + a.s); } inline V operator+(V const& a) { return V("+" + a.s); } inline V operator~(V const& a) { return V("~" + a.s); }
inline V& operator++(V& a) { a.s = "++" + a.s; return a; } inline V& operator--(V& a) { a.s = "--" + a.s; return a; } inline V operator++(V& a, int) { V r = a; a.s += "++"; return r; } inline V operator--(V& a, int) { V r = a; a.s += "--"; return r; }
#if PART == 0
#define CMP(OP) inline bool operator OP(V const& a, V const& b) { return a.s OP b.s; }
CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
template<class T> S term(T const& t) { return str(t); } inline S term(V const& v) { return v.s; }
// typed, transparent and named forms of one operator
#define TEST2(NAME, OP) { V p("p"), q("q"); MC_STATE(#NAME); trace(); eq("typed " #NAME, term(sprout::NAME<V>()(p, q)), term(p OP q)); eq("transparent " #NAME, term(sprout::NAME<>()(p, q)), term(p OP q)); eq("named " #NAME, term(sprout::NAME##_(p, q)), term(p OP q)); \
	for (int x = -5; x <= 5; ++x) for (int y = -5; y <= 5; ++y) { S o = #OP; if ((o == "/" || o == "%") && y == 0) continue; if ((o == "<<" || o == ">>") && (y < 0 || x < 0)) continue; MC_STATE(#NAME " " + str(x) + " " + str(y)); trace(); long lx = x; short sy = y; \
		eq("typed " #NAME, sprout::NAME<int>()(x, y), decltype(sprout::NAME<int>()(x, y))(x OP y)); eq("typed wide " #NAME, sprout::NAME<long>()(x, y), decltype(sprout::NAME<long>()(x, y))(lx OP y)); eq("transparent " #NAME, sprout::NAME<>()(lx, sy), lx OP sy); eq("named " #NAME, sprout::NAME##_(x, sy), x OP sy); \
		eq("transparent type " #NAME, std::is_same<decltype(sprout::NAME<>()(lx, sy)), decltype(lx OP sy)>::value, true); } }
#define TEST2U(NAME, OP) { V p("p"), q("q"); MC_STATE(#NAME); trace(); eq("transparent " #NAME, term(sprout::NAME<>()(p, q)), term(p OP q)); eq("named " #NAME, term(sprout::NAME##_(p, q)), term(p OP q)); for (int x = 0; x <= 9; ++x) for (int y = 0; y <= 9; ++y) { MC_STATE(#NAME " " + str(x) + " " + str(y)); trace(); long lx = x; short sy = y; eq("transparent " #NAME, sprout::NAME<>()(lx, sy), lx OP sy); eq("named " #NAME, sprout::NAME##_(x, y), x OP y); } }
#define TEST2D(NAME, OP) { double v[] = {-2.5, -1., 0., .5, 1., 3.25}; for (double x : v) for (double y : v) { int yi = int(y); MC_STATE(#NAME " double " + str(x) + " " + str(y)); trace(); eq("typed double " #NAME, sprout::NAME<double>()(x, y), x OP y); eq("transparent mixed " #NAME, sprout::NAME<>()(x, yi), x OP yi); eq("transparent mixed " #NAME, sprout::NAME##_(yi, x), yi OP x); } }
#define TEST1(NAME, OP) { V p("p"); MC_STATE(#NAME); trace(); eq("typed " #NAME, term(sprout::NAME<V>()(p)), term(OP p)); eq("transparent " #NAME, term(sprout::NAME<>()(p)), term(OP p)); for (int x = -130; x <= 130; ++x) { MC_STATE(#NAME " " + str(x)); trace(); signed char c = x; eq("typed " #NAME, sprout::NAME<int>()(x), OP x); eq("transparent " #NAME, sprout::NAME<>()(c), OP c); eq("named " #NAME, sprout::NAME##_(x), OP x); } }
#define TESTA(NAME, OP) { V p("p"), q("q"), r("p"); MC_STATE(#NAME); trace(); V& res = sprout::NAME<>()(p, q); r OP q; eq("assign " #NAME, p.s, r.s); eq("assign result " #NAME, &res == &p, true); V p2("p"); eq("named " #NAME, &sprout::NAME##_(p2, q) == &p2 && p2.s == r.s, true); for (int x = 0; x <= 9; ++x) for (int y = 1; y <= 5; ++y) { MC_STATE(#NAME " " + str(x) + " " + str(y)); trace(); long a = x, b = x; a OP y; eq("assign result " #NAME, &sprout::NAME<>()(b, y) == &b, true); eq("assign " #NAME, b, a); } }
#define TESTM(NAME, PRE, POST) { V p("p"), r("p"); MC_STATE(#NAME); trace(); S want = (PRE r POST).s; S got = sprout::NAME<>()(p).s; eq("step result " #NAME, got, want); eq("step " #NAME, p.s, r.s); V p2("p"); eq("named " #NAME, sprout::NAME##_(p2).s, want); eq("step type " #NAME, std::is_same<decltype(sprout::NAME<>()(p)), decltype(PRE r POST)>::value, true); for (int x = -3; x <= 3; ++x) { MC_STATE(#NAME " " + str(x)); trace(); int a = x, b = x; int g = sprout::NAME<>()(a), w = PRE b POST; eq("step result " #NAME, g, w); eq("step " #NAME, a, b); } }
MC_SECTION(operators) {
	TEST2(plus, +) TEST2(minus, -) TEST2(multiplies, *) TEST2(divides, /) TEST2(modulus, %) TEST2(equal_to, ==) TEST2(not_equal_to, !=) TEST2(greater, >) TEST2(less, <) TEST2(greater_equal, >=) TEST2(less_equal, <=) TEST2(bit_and, &) TEST2(bit_or, |) TEST2(bit_xor, ^) TEST2U(shift_left, <<) TEST2U(shift_right, >>)
	for (int x = -5; x <= 5; ++x) for (int y = -5; y <= 5; ++y) { MC_STATE("logical " + str(x) + " " + str(y)); trace(); eq("logical_and", sprout::logical_and<int>()(x, y) == (x && y) && sprout::logical_and<>()(x, y) == (x && y) && sprout::logical_and_(x, y) == (x && y), true); eq("logical_or", sprout::logical_or<int>()(x, y) == (x || y) && sprout::logical_or<>()(x, y) == (x || y) && sprout::logical_or_(x, y) == (x || y), true); eq("logical_not", sprout::logical_not<int>()(x) == !x && sprout::logical_not<>()(x) == !x && sprout::logical_not_(x) == !x, true); eq("comma", sprout::comma<>()(x, y) == y && sprout::comma_(x, y) == y, true); }
	TEST2D(plus, +) TEST2D(minus, -) TEST2D(multiplies, *) TEST2D(equal_to, ==) TEST2D(not_equal_to, !=) TEST2D(greater, >) TEST2D(less, <) TEST2D(greater_equal, >=) TEST2D(less_equal, <=)
	TEST1(negate, -) TEST1(posite, +) TEST1(bit_not, ~)
	TESTA(plus_assign, +=) TESTA(minus_assign, -=) TESTA(multiplies_assign, *=) TESTA(divides_assign, /=) TESTA(modulus_assign, %=) TESTA(bit_and_assign, &=) TESTA(bit_or_assign, |=) TESTA(bit_xor_assign, ^=) TESTA(shift_left_assign, <<=) TESTA(shift_right_assign, >>=)
	TESTM(pre_increment, ++, ) TESTM(pre_decrement, --, ) TESTM(post_increment, , ++) TESTM(post_decrement, , --)
	{ V p("p"), q("q"); MC_STATE("assign"); trace(); eq("assign result", &sprout::assign<>()(p, q) == &p && p.s == "q", true); V r("r"); eq("assign_", &sprout::assign_(p, r) == &p && p.s == "r", true); }
}
struct M { V v; int n; V get() { return V("get"); } V cget() const { return V("cget"); } V add(V const& a) { return V("add" + a.s + v.s); } V cadd(V const& a) const { return V("cadd" + a.s + v.s); } V addv(V a) { return V("addv" + a.s + v.s); } V caddv(V a) const { return V("caddv" + a.s + v.s); } V two(V const& a, V const& b) const { return V("two" + v.s + a.s + b.s); } int twice(int k) const { return n * k; } int* at() { return &n; } };
struct D : M {};
static V f1(V a) { return V("f1" + a.s); } static V f2(V a, V b) { return V("f2" + a.s + b.s); } static V f0() { return V("f0"); } static V f3(V a, V b, V c) { return V("f3" + a.s + b.s + c.s); }
static bool odd(int x) { return x % 2 != 0; } static bool below(int a, int b) { return a < b; }
struct Rel { bool m[3][3]; bool operator()(int a, int b) const { return m[a][b]; } }; struct SRel { typedef int first_argument_type; typedef int second_argument_type; typedef bool result_type; bool m[3][3]; bool operator()(int a, int b) const { return m[a][b]; } };
struct Pr { bool m[4]; bool operator()(int a) const { return m[a]; } }; struct SPr { typedef int argument_type; typedef bool result_type; bool m[4]; bool operator()(int a) const { return m[a]; } };
struct SRelM { typedef int first_argument_type; typedef int second_argument_type; typedef V result_type; V operator()(int const& a, int const& b) const { return V(str(a) + "~" + str(b)); } };
struct RelM { template<class T, class U> V operator()(T const& a, U const& b) const { return V(str(a) + "~" + str(b)); } };
MC_SECTION(access) { int arr[] = {4, 5, 6}; M m{V("m"), 7}; M const cm{V("c"), 8}; M* pm = &m; MC_STATE("access"); trace();
	for (int i = 0; i < 3; ++i) { eq("subscript", &sprout::subscript<>()(arr, i) == arr + i && &sprout::subscript_(arr, i) == arr + i, true); int* p = arr + i; eq("dereference", &sprout::dereference<>()(p) == p && &sprout::dereference_(p) == p, true); eq("address_of", sprout::address_of<>()(arr[i]) == p && sprout::address_of_(arr[i]) == p, true); }
	eq("member", &sprout::member<>()(m, &M::v) == &m.v && &sprout::member_(cm, &M::n) == &cm.n, true); eq("member_pointer", &sprout::member_pointer<>()(pm, &M::v) == &m.v && &sprout::member_pointer_(&cm, &M::n) == &cm.n, true);
	for (int c = 0; c < 2; ++c) for (int x = -1; x < 2; ++x) { V a("a"), b("b"); eq("cond", &sprout::cond<>()(c != 0, a, b) == (c ? &a : &b), true); eq("cond_", sprout::cond_(x, 3, 4L), x ? 3L : 4L); }
	V a("a"), b("b"), c("c"); eq("call_fun", sprout::call_fun<>()(f0).s + sprout::call_fun<>()(f1, a).s + sprout::call_fun_(f2, a, b).s + sprout::call_fun_(f3, a, b, c).s, S("f0f1af2abf3abc"));
	eq("invoke", sprout::invoke(f0).s + sprout::invoke(f1, a).s + sprout::invoke(f2, a, b).s + sprout::invoke(&f3, c, b, a).s, S("f0f1af2abf3cba")); D d; d.v = V("d"); d.n = 9; D* pd = &d; std::unique_ptr<M> up(new M{V("u"), 3});
	eq("invoke member function", sprout::invoke(&M::get, m).s + sprout::invoke(&M::cget, cm).s + sprout::invoke(&M::add, m, a).s + sprout::invoke(&M::cadd, &cm, a).s + sprout::invoke(&M::two, d, a, b).s + sprout::invoke(&M::two, pd, b, a).s + sprout::invoke(&M::two, up, a, c).s, S("getcgetaddamcaddactwodabtwodbatwouac"));
	eq("invoke member", &sprout::invoke(&M::n, m) == &m.n && &sprout::invoke(&M::n, pd) == &d.n && &sprout::invoke(&M::v, cm) == &cm.v && &sprout::invoke(&M::n, up) == &up->n, true);
	eq("mem_fn", sprout::mem_fn(&M::get)(m).s + sprout::mem_fn(&M::get)(pm).s + sprout::mem_fn(&M::cget)(cm).s + sprout::mem_fn(&M::cget)(&cm).s + sprout::mem_fn(&M::add)(m, a).s + sprout::mem_fn(&M::add)(pm, b).s + sprout::mem_fn(&M::two)(cm, a, b).s + sprout::mem_fn(&M::two)(d, b, a).s + sprout::mem_fn(&M::two)(pd, b, c).s + sprout::mem_fn(&M::two)(up, a, c).s, S("getgetcgetcgetaddamaddbmtwocabtwodbatwodbctwouac"));
	eq("mem_fn member", &sprout::mem_fn(&M::n)(m) == &m.n && &sprout::mem_fn(&M::n)(pm) == &m.n && &sprout::mem_fn(&M::n)(cm) == &cm.n && &sprout::mem_fn(&M::n)(&cm) == &cm.n && &sprout::mem_fn(&M::v)(d) == &d.v && &sprout::mem_fn(&M::v)(up) == &up->v, true);
	eq("mem_fun", sprout::mem_fun(&M::get)(pm).s + sprout::mem_fun(&M::cget)(&cm).s + sprout::mem_fun(&M::addv)(pm, a).s + sprout::mem_fun(&M::caddv)(&cm, b).s, S("getcgetaddvamcaddvbc"));
	eq("mem_fun_ref", sprout::mem_fun_ref(&M::get)(m).s + sprout::mem_fun_ref(&M::cget)(cm).s + sprout::mem_fun_ref(&M::addv)(m, a).s + sprout::mem_fun_ref(&M::caddv)(cm, b).s, S("getcgetaddvamcaddvbc"));
	eq("ptr_fun", sprout::ptr_fun(f1)(a).s + sprout::ptr_fun(f2)(a, b).s + sprout::ptr_fun(&f2)(b, a).s, S("f1af2abf2ba"));
}
// negators, equivalence, old binders: all unary predicates on 4 values, all relations on 3 values
MC_SECTION(negators) {
	for (int bits = 0; bits < 16; ++bits) { Pr p; SPr sp; for (int i = 0; i < 4; ++i) p.m[i] = sp.m[i] = bits >> i & 1; for (int x = 0; x < 4; ++x) { MC_STATE("not1 " + str(bits) + " " + str(x)); trace(); eq("not1", sprout::not1(p)(x) == !p(x) && sprout::not1(sp)(x) == !p(x) && sprout::not1(sprout::not1(sp))(x) == p(x) && sprout::not1(sprout::not1(p))(x) == p(x), true); } }
	for (int bits = 0; bits < 512; ++bits) { Rel r; SRel sr; for (int i = 0; i < 9; ++i) r.m[i / 3][i % 3] = sr.m[i / 3][i % 3] = bits >> i & 1;
		for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) { MC_STATE("rel " + str(bits) + " " + str(x) + " " + str(y)); trace(); bool w = r(x, y), e = !r(x, y) && !r(y, x); eq("not2", sprout::not2(r)(x, y) == !w && sprout::not2(sr)(x, y) == !w && sprout::not2(sprout::not2(sr))(x, y) == w, true); eq("equiv", sprout::equiv(r)(x, y) == e && sprout::equiv(sr)(x, y) == e, true);
			eq("bind1st", sprout::bind1st(sr, x)(y) == w && sprout::bind1st(r, x)(y) == w, true); eq("bind2nd", sprout::bind2nd(sr, y)(x) == w && sprout::bind2nd(r, y)(x) == w, true); eq("not1 bind1st", sprout::not1(sprout::bind1st(sr, x))(y) == !w && sprout::not1(sprout::bind2nd(sr, y))(x) == !w, true); } }
	for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) { MC_STATE("fun " + str(x) + " " + str(y)); trace(); eq("bind value", sprout::bind1st(SRelM(), x)(y).s + sprout::bind1st(RelM(), x)(y).s + sprout::bind2nd(SRelM(), y)(x).s + sprout::bind2nd(RelM(), y)(x).s, [&] { S u = str(x) + "~" + str(y); return u + u + u + u; }()); eq("bind ptr_fun", sprout::bind1st(sprout::ptr_fun(below), x)(y) == (x < y) && sprout::bind2nd(sprout::ptr_fun(below), y)(x) == (x < y) && sprout::not1(sprout::ptr_fun(odd))(x) == (x % 2 == 0) && sprout::not2(sprout::ptr_fun(below))(x, y) == !(x < y), true); eq("equiv less", sprout::equiv()(x, y) == (x == y), true); eq("bind minus", sprout::bind1st(sprout::minus<int>(), x)(y) == x - y && sprout::bind2nd(sprout::minus<int>(), x)(y) == y - x, true); }
}
struct Who { S operator()() { return "()"; } S operator()() const { return "()c"; } S operator()(V& a) const { return "&" + a.s; } S operator()(V const& a) const { return "c&" + a.s; } S operator()(V&& a) const { return "&&" + a.s; } };
MC_SECTION(references) { V a("a"), b("b"), cc("d"); V const c("c"); MC_STATE("references"); trace();
	sprout::reference_wrapper<V> ra = sprout::ref(a), rb(b); sprout::reference_wrapper<V const> rc = sprout::cref(a), rd = sprout::ref(c); eq("ref", &ra.get() == &a && &static_cast<V&>(ra) == &a && &rb.get() == &b && &rc.get() == &a && &rd.get() == &c, true); eq("ref of ref", &sprout::ref(ra).get() == &a && &sprout::cref(ra).get() == &a && std::is_same<decltype(sprout::ref(ra)), sprout::reference_wrapper<V> >::value && std::is_same<decltype(sprout::cref(ra)), sprout::reference_wrapper<V const> >::value, true);
	ra = rb; eq("rebind", &ra.get() == &b && a.s == "a" && b.s == "b", true); ra = sprout::ref(cc); ra.get().s = "e"; eq("write through", cc.s, S("e")); sprout::reference_wrapper<V> rr(ra); eq("copy", &rr.get() == &cc, true);
	Who w; Who const cw; eq("call", sprout::ref(w)() + sprout::ref(cw)() + sprout::cref(w)() + sprout::ref(w)(a) + sprout::ref(w)(c) + sprout::ref(w)(V("r")), S("()()c()c&ac&c&&r")); eq("call function", sprout::ref(f2)(a, b).s + sprout::ref(f0)().s, S("f2abf0")); M m{V("m"), 7}; eq("call member", sprout::ref(m).get().n, 7);
	int x = 1; sprout::reference_wrapper<int> rx(x); int& y = rx; y = 5; eq("int", x == 5 && rx + 1 == 6, true);
}
#else
// bind: every arrangement of the arguments, against std::bind
struct Rec { template<class... T> S operator()(T&&... t) { S r = "n("; int d[] = {0, (r += cat(static_cast<T&&>(t)) + t.s + ",", 0)...}; (void)d; return r + ")"; } template<class... T> S operator()(T&&... t) const { S r = "c("; int d[] = {0, (r += cat(static_cast<T&&>(t)) + t.s + ",", 0)...}; (void)d; return r + ")"; } };
struct RecV { template<class... T> V operator()(T&&... t) const { S r = "i("; int d[] = {0, (r += cat(static_cast<T&&>(t)) + t.s + ",", 0)...}; (void)d; return V(r + ")"); } };
struct Bump { template<class... T> S operator()(T&... t) const { S r; int d[] = {0, (r += t.s, 0)...}; (void)d; return r; } };
static V va("va"), vb("vb"); static V const vc("vc");
// kinds of bound argument
enum { NK = 8 };
template<int K, int POS> struct Arg;
template<int P> struct Arg<0, P> { static S name() { return "_1"; } static sprout::placeholder<1> s() { return sprout::_1; } static decltype(std::placeholders::_1) const& d() { return std::placeholders::_1; } };
template<int P> struct Arg<1, P> { static S name() { return "_2"; } static sprout::placeholder<2> s() { return sprout::_2; } static decltype(std::placeholders::_2) const& d() { return std::placeholders::_2; } };
template<int P> struct Arg<2, P> { static S name() { return "_3"; } static sprout::placeholder<3> s() { return sprout::_3; } static decltype(std::placeholders::_3) const& d() { return std::placeholders::_3; } };
template<int P> struct Arg<3, P> { static S name() { return "value"; } static V s() { return V("k" + str(P)); } static V d() { return s(); } };
template<int P> struct Arg<4, P> { static S name() { return "std::ref"; } static std::reference_wrapper<V> s() { return std::ref(va); } static std::reference_wrapper<V> d() { return std::ref(va); } };
template<int P> struct Arg<5, P> { static S name() { return "ref"; } static sprout::reference_wrapper<V> s() { return sprout::ref(vb); } static std::reference_wrapper<V> d() { return std::ref(vb); } };
template<int P> struct Arg<6, P> { static S name() { return "cref"; } static sprout::reference_wrapper<V const> s() { return sprout::cref(vc); } static std::reference_wrapper<V const> d() { return std::cref(vc); } };
template<int P> struct Arg<7, P> { static S name() { return "bind(_2,value,_1)"; } static auto s() -> decltype(sprout::bind(RecV(), sprout::_2, V("n"), sprout::_1)) { return sprout::bind(RecV(), sprout::_2, V("n"), sprout::_1); } static auto d() -> decltype(std::bind(RecV(), std::placeholders::_2, V("n"), std::placeholders::_1)) { return std::bind(RecV(), std::placeholders::_2, V("n"), std::placeholders::_1); } };
template<class SB, class CB, class RB, class DB> void calls(S const& n, SB sb, CB cb, RB rb, DB db) { SB const csb(sb); RB const crb(rb); DB const cdb(db); V p("p"), q("q"), r("r"); V const cq("cq");
	MC_STATE(n); trace();
	eq("bind lvalues", sb(p, q, r), db(p, q, r)); eq("bind rvalues", sb(V("x"), V("y"), V("z")), db(V("x"), V("y"), V("z"))); eq("bind mixed", sb(p, cq, V("z")), db(p, cq, V("z"))); eq("bind mixed", sb(V("z"), p, cq), db(V("z"), p, cq));
	eq("const bind lvalues", csb(p, q, r), cdb(p, q, r)); eq("const bind mixed", csb(cq, V("y"), r), cdb(cq, V("y"), r)); eq("cbind lvalues", cb(p, q, r), cdb(p, q, r)); eq("cbind mixed", cb(V("x"), r, cq), cdb(V("x"), r, cq));
	eq("bind<R> lvalues", rb(p, q, r), db(p, q, r)); eq("bind<R> mixed", rb(V("x"), r, cq), db(V("x"), r, cq)); eq("const bind<R>", crb(p, V("y"), r), cdb(p, V("y"), r)); }
template<int... K> struct Case;
template<> struct Case<> { static void run() { calls("()", sprout::bind(Rec()), sprout::cbind(Rec()), sprout::bind<S>(Rec()), std::bind(Rec())); } };
template<int A1> struct Case<A1> { static void run() { typedef Arg<A1, 1> X; calls(X::name(), sprout::bind(Rec(), X::s()), sprout::cbind(Rec(), X::s()), sprout::bind<S>(Rec(), X::s()), std::bind(Rec(), X::d())); } };
template<int A1, int A2> struct Case<A1, A2> { static void run() { typedef Arg<A1, 1> X; typedef Arg<A2, 2> Y; calls(X::name() + "," + Y::name(), sprout::bind(Rec(), X::s(), Y::s()), sprout::cbind(Rec(), X::s(), Y::s()), sprout::bind<S>(Rec(), X::s(), Y::s()), std::bind(Rec(), X::d(), Y::d())); } };
template<int A1, int A2, int A3> struct Case<A1, A2, A3> { static void run() { typedef Arg<A1, 1> X; typedef Arg<A2, 2> Y; typedef Arg<A3, 3> Z; calls(X::name() + "," + Y::name() + "," + Z::name(), sprout::bind(Rec(), X::s(), Y::s(), Z::s()), sprout::cbind(Rec(), X::s(), Y::s(), Z::s()), sprout::bind<S>(Rec(), X::s(), Y::s(), Z::s()), std::bind(Rec(), X::d(), Y::d(), Z::d())); } };
template<int N, int... K> struct All { template<int... I> struct Ix {}; template<int... I> static void go(Ix<I...>) { int d[] = {(All<N - 1, K..., I>::run(), 0)...}; (void)d; } static void run() { go(Ix<0, 1, 2, 3, 4, 5, 6, 7>()); } };
template<int... K> struct All<0, K...> { static void run() { Case<K...>::run(); } };
#if PART == 1
MC_SECTION(short_lists) { All<0>::run(); All<1>::run(); All<2>::run(); }
struct Mm { V v; int n; S get(V const& a) const { return "get" + a.s + v.s; } S mut(V const& a) { v.s += a.s; return "mut" + v.s; } };
static S fn2(V const& a, V b) { return a.s + "|" + b.s; } static V fv(V const& a) { return V("f" + a.s); } static void fvoid(V& a, V const& b) { a.s += b.s; }
MC_SECTION(callables) { using namespace sprout::placeholders; Mm m{V("m"), 4}; Mm const cm{V("c"), 5}; V p("p"), q("q"), r("r"); MC_STATE("callables"); trace();
	eq("bind function", sprout::bind(fn2, _2, _1)(p, q) + sprout::bind(&fn2, V("k"), _1)(p) + sprout::cbind(fn2, _1, _1)(q), S("q|pk|pq|q")); eq("bind member function", sprout::bind(&Mm::get, _1, _2)(m, p) + sprout::bind(&Mm::get, &cm, _1)(q) + sprout::bind(&Mm::get, sprout::ref(m), _1)(p) + sprout::bind(&Mm::get, m, V("k"))() + sprout::bind<S>(&Mm::get, _2, _1)(p, cm), S("getpmgetqcgetpmgetkmgetpc"));
	eq("bind data member", sprout::bind(&Mm::n, _1)(m) + 10 * sprout::bind(&Mm::n, _2)(p, cm), 54); { auto b = sprout::bind(&Mm::mut, &m, _1); S g = b(p); g += b(q); eq("bind mutating", g + m.v.s, S("mutmpmutmpqmpq")); } { auto b = sprout::bind(&Mm::mut, m, _1); S g = b(p); g += b(q); eq("bind copy mutating", g + m.v.s, S("mutmpqpmutmpqpqmpq")); }
	sprout::bind(fvoid, _1, _2)(p, q); eq("bind void", p.s, S("pq")); sprout::bind<void>(fvoid, sprout::ref(p), _1)(r); eq("bind<void>", p.s, S("pqr")); eq("bind nested", sprout::bind(fn2, sprout::bind(fv, _2), sprout::bind(fv, sprout::bind(fv, _1)))(q, r), S("fr|ffq")); eq("bind<long>", std::is_same<decltype(sprout::bind<long>(sprout::plus<>(), _1, 2)(3)), long>::value && sprout::bind<long>(sprout::plus<>(), _1, 2)(3) == 5, true);
	auto b = sprout::bind(Bump(), _1, V("k"), _1); auto b2 = b; eq("copy", b2(p) + b(q), S("pqrkpqrqkq")); eq("is_bind_expression", sprout::is_bind_expression<decltype(b)>::value && sprout::is_bind_expression<decltype(b) const>::value && !sprout::is_bind_expression<Rec>::value, true);
	// the oracle's own binders may be nested too
	eq("extra arguments", sprout::bind(Rec(), _1)(p, q, r), S("n(&pqr,)"));
}
// placeholders that stand for a tail of the arguments, and those taken by position
MC_SECTION(tails) { using namespace sprout::placeholders; V p("p"), q("q"), r("r"), s("s"); S e = "c(", z = ")";
	struct L { static S l(S const& x) { S o; for (char c : x) { o += c == 'k' ? "c&k" : "&" + S(1, c); o += ","; } return o; } };
	for (int n = 0; n <= 4; ++n) { MC_STATE("tail " + str(n)); trace(); S all = S("pqrs").substr(0, n); auto t = [&](int k) { return k <= n ? all.substr(k) : S(); };
#define TAIL(WANT, ...) { auto b = sprout::cbind(Rec(), __VA_ARGS__); eq("tail " #__VA_ARGS__, n == 2 ? b(p, q) : n == 3 ? b(p, q, r) : b(p, q, r, s), e + L::l(WANT) + z); auto b2 = sprout::bind(Rec(), __VA_ARGS__); S w2 = e + L::l(WANT) + z, g2 = n == 2 ? b2(p, q) : n == 3 ? b2(p, q, r) : b2(p, q, r, s); w2[0] = 'n'; for (std::size_t i; (i = w2.find("c&k")) != S::npos;) w2.erase(i, 1); eq("tail bind " #__VA_ARGS__, g2, w2); }
		if (n == 0) eq("tail none", sprout::cbind(Rec(), _va)() + sprout::cbind(Rec(), _va, V("k"))(), e + z + e + L::l("k") + z); if (n == 1) eq("tail one", sprout::cbind(Rec(), _va)(p) + sprout::cbind(Rec(), _1tail)(p) + sprout::cbind(Rec(), V("k"), _va, _1)(p), e + L::l("p") + z + e + z + e + L::l("kpp") + z);
		if (n >= 2) { TAIL(t(0), _va) TAIL(t(1), _1tail) TAIL(t(2), _2tail) TAIL(t(0) + "p", _va, _1) TAIL("q" + t(1), _2, _1tail) TAIL("k" + t(0) + "k", V("k"), _va, V("k")) TAIL("p" + t(2) + "q", _1, _2tail, _2) TAIL(t(0) + t(1), _va, _1tail) TAIL(t(1) + "k" + t(0) + "q", _1tail, V("k"), _va, _2) TAIL("pk" + t(1) + t(1), _1, V("k"), _1tail, _1tail) }
		if (n >= 2) { TAIL("pq", _, _) TAIL("pkq", _, V("k"), _) TAIL("kp", V("k"), _) } if (n == 3) { MC_STATE("by position"); trace(); eq("by position", sprout::cbind(Rec(), _, _, V("k"), _)(p, q, r), e + L::l("pqkr") + z); } } }
#else
MC_SECTION(full_lists) { All<2, PART - 2>::run(); }
#endif
#endif
