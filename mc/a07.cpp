// A07: folds and scans against their left-to-right definition.
#include "mc.hpp"
#include "iters.hpp"
#include "preds.hpp"
#include "dests.hpp"
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/functional.hpp>
#ifndef PART
#define PART 0
#endif
struct Comb { constexpr long operator()(long a, long b) const { return 3 * a + b; } };          // neither associative nor commutative
struct Sub { constexpr int operator()(int a, int b) const { return a - b + 7; } };
struct Mul2 { constexpr int operator()(int a, int b) const { return a * 4 + b; } };
struct Neg { constexpr int operator()(int a) const { return 9 - a; } };
// an associative, non-commutative monoid: words over letters, kept as (length, base-8 digits)
struct W { int n; long d; constexpr W() : n(0), d(0) {} constexpr W(int x) : n(1), d(x + 1) {} constexpr W(int n_, long d_) : n(n_), d(d_) {} };
constexpr long p8(int n) { return n <= 0 ? 1 : 8 * p8(n - 1); }
constexpr W operator+(W const& a, W const& b) { return W(a.n + b.n, a.d * p8(b.n) + b.d); }
constexpr bool operator==(W const& a, W const& b) { return a.n == b.n && a.d == b.d; }
std::ostream& operator<<(std::ostream& o, W const& w) { return o << w.n << ":" << std::oct << w.d << std::dec; }
namespace mc { inline uint64_t hval(W const& w) { return (uint64_t)w.d * 31 + w.n; } }
struct Cat { constexpr W operator()(W const& a, W const& b) const { return a + b; } };
struct ToW { constexpr W operator()(int a) const { return W(a); } };
struct Pair2 { constexpr W operator()(int a, int b) const { return W(a * 2 + (b & 1)); } };

// reference definitions
template<class T, class Op> T ref_fold(V const& v, T i, Op op) { for (int x : v) i = op(i, x); return i; }
template<class T, class Op, class U> std::vector<T> ref_excl(V const& v, T i, Op op, U u) { std::vector<T> r; for (int x : v) { r.push_back(i); i = op(i, u(x)); } return r; }
template<class T, class Op, class U> std::vector<T> ref_incl(V const& v, T i, Op op, U u) { std::vector<T> r; for (int x : v) { i = op(i, u(x)); r.push_back(i); } return r; }
template<class Op, class U> V ref_incl0(V const& v, Op op, U u) { V r; int i = 0; for (std::size_t k = 0; k < v.size(); ++k) { i = k ? op(i, u(v[k])) : u(v[k]); r.push_back(i); } return r; }
template<class Op> V ref_adj(V const& v, Op op) { V r; for (std::size_t k = 0; k < v.size(); ++k) r.push_back(k ? op(v[k], v[k - 1]) : v[k]); return r; }
struct Id { constexpr int operator()(int a) const { return a; } };

#if PART == 0 || PART == 1
template<class Tag> void folds(V const& v) {
	Buf<int> b(v, -9); auto f = b.cit<Tag>(0); auto l = b.cit<Tag>((int)v.size());
	MC_STATE(std::string(tagname<Tag>::n()) + " " + str(v));
	trace();
	for (int i = -1; i <= 2; i += 3) {
		eq("accumulate", sprout::accumulate(f, l, i), ref_fold(v, i, std::plus<int>()));
		eq("accumulate(op)", sprout::accumulate(f, l, (long)i, Comb()), ref_fold(v, (long)i, Comb()));
		eq("reduce(init)", sprout::reduce(f, l, i), ref_fold(v, i, std::plus<int>()));
		eq("reduce(op)", sprout::reduce(f, l, i, sprout::plus<>()), ref_fold(v, i, std::plus<int>()));
	}
	W w0(5);
	W wv = w0; for (int x : v) wv = wv + W(x);
	eq("accumulate(word)", sprout::accumulate(f, l, w0, Cat()), wv);
	eq("accumulate(word,+)", sprout::accumulate(f, l, w0), wv);
	eq("reduce(word)", sprout::reduce(f, l, w0, Cat()), wv);
	if (!v.empty()) eq("reduce", sprout::reduce(f, l), ref_fold(v, 0, std::plus<int>()));
	eq("transform_reduce(word)", sprout::transform_reduce(f, l, w0, Cat(), ToW()), wv);
	eq("transform_reduce", sprout::transform_reduce(f, l, 2, sprout::plus<>(), Neg()), 2 + 9 * (int)v.size() - ref_fold(v, 0, std::plus<int>()));
	// mixed types: the fold is carried out in the type of the initial value
	{ std::vector<double> dv(v.begin(), v.end()); for (double& x : dv) x += 0.5; int r = 1; for (double x : dv) r = (int)(r + x); (void)r; }
	eq("accumulate(bool init)", sprout::accumulate(f, l, false, sprout::logical_or<>()), std::count(v.begin(), v.end(), 0) != (int)v.size());
}
template<class Tag> void folds2(V const& v, V const& w) {
	Buf<int> b(v, -9), c(w, -9); auto f = b.cit<Tag>(0); auto l = b.cit<Tag>((int)v.size()); auto g = c.cit<Tag>(0);
	MC_STATE(std::string(tagname<Tag>::n()) + " " + str(v) + " " + str(w));
	trace();
	int ip = 3; long io = 3; W iw(5); int ad = 3;
	for (std::size_t k = 0; k < v.size(); ++k) { ip += v[k] * w[k]; io = Comb()(io, Mul2()(v[k], w[k])); iw = iw + Pair2()(v[k], w[k]); ad += Mul2()(v[k], w[k]); }
	eq("inner_product", sprout::inner_product(f, l, g, 3), ip);
	eq("inner_product(ops)", sprout::inner_product(f, l, g, 3L, Comb(), Mul2()), io);
	eq("inner_product(word)", sprout::inner_product(f, l, g, W(5), Cat(), Pair2()), iw);
	eq("transform_reduce(2)", sprout::transform_reduce(f, l, g, 3), ip);
	eq("transform_reduce(2,ops)", sprout::transform_reduce(f, l, g, 3, sprout::plus<>(), Mul2()), ad);
	eq("transform_reduce(2,word)", sprout::transform_reduce(f, l, g, W(5), Cat(), Pair2()), iw);
}
template<class Tag> void run_folds() {
	int n = thorough() ? 8 : 6;
	bound("folds", "all sequences over {0,1,2} up to length " + std::to_string(n) + "; lengths up to 40 with position-coded values");
	sequences_upto(n, 3, [&](V const& v) { folds<Tag>(v); });
	for (int k = 7; k <= 40; ++k) { V v; for (int i = 0; i < k; ++i) v.push_back(i * 7 % 5); if (k <= 18) folds<Tag>(v); else { // word digits overflow beyond this; use sums and the combining op modulo 2^64
		Buf<int> b(v, -9); auto f = b.cit<Tag>(0); auto l = b.cit<Tag>(k); MC_STATE(std::string(tagname<Tag>::n()) + " long " + std::to_string(k)); trace();
		eq("accumulate(op,long)", sprout::accumulate(f, l, 1ul, [](unsigned long a, int x) { return a * 31 + x; }), ref_fold(v, 1ul, [](unsigned long a, int x) { return a * 31 + x; }));
		eq("inner_product(op,long)", sprout::inner_product(f, l, f, 1ul, [](unsigned long a, unsigned long x) { return a * 31 + x; }, [](int a, int c) { return (unsigned long)(a * 3 + c); }), ref_fold(v, 1ul, [](unsigned long a, int x) { return a * 31 + x * 4; }));
		eq("reduce(long)", sprout::reduce(f, l, 1), ref_fold(v, 1, std::plus<int>())); } }
	int m = thorough() ? 5 : 4;
	sequences_upto(m, 3, [&](V const& v) { sequences((int)v.size(), 3, [&](V const& w) { folds2<Tag>(v, w); }); });
	for (int k = 5; k <= 18; ++k) { V v, w; for (int i = 0; i < k; ++i) { v.push_back(i % 3); w.push_back(i * 7 % 5); } folds2<Tag>(v, w); }
}
MC_SECTION(folds_pointer) { run_folds<Ptr>(); }
MC_SECTION(folds_ra) { run_folds<ra>(); }
MC_SECTION(folds_nlra) { run_folds<NLRa>(); }
MC_SECTION(folds_bidi) { run_folds<bidi>(); }
MC_SECTION(folds_fwd) { run_folds<fwd>(); }
MC_SECTION(folds_nlfwd) { run_folds<NLFwd>(); }
#endif

#if PART == 0 || PART == 2
// writing through iterators: separate destination and in place
#define OUT(name, want, ...) do { std::vector<int> w_ = (want); { Buf<int> o(V(w_.size(), 77), -8); auto r = o.it<Tag>(0); auto rr = sprout::name(f, l, r, ##__VA_ARGS__); \
		if (eq(#name, o.get(), w_)) { eq(#name " returns", o.pos(rr), (int)w_.size()); okd(#name " guards", o.guards(), [] { return std::string("guard cells overwritten"); }); } } \
	{ Buf<int> o(v, -8); auto rr = sprout::name(o.it<Tag>(0), o.it<Tag>(n), o.it<Tag>(0), ##__VA_ARGS__); if (eq(#name " in place", o.get(), w_)) { eq(#name " in place returns", o.pos(rr), n); okd(#name " in place guards", o.guards(), [] { return std::string("guard cells overwritten"); }); } } \
	ok(#name " source unchanged", b.unchanged()); } while (0)
template<class Tag> void scans(V const& v) {
	int n = v.size();
	Buf<int> b(v, -9); auto f = b.it<Tag>(0); auto l = b.it<Tag>(n);
	MC_STATE(std::string(tagname<Tag>::n()) + " " + str(v));
	trace();
	OUT(partial_sum, ref_incl0(v, std::plus<int>(), Id()));
	OUT(partial_sum, ref_incl0(v, Sub(), Id()), Sub());
	OUT(adjacent_difference, ref_adj(v, std::minus<int>()));
	OUT(adjacent_difference, ref_adj(v, Mul2()), Mul2());
	OUT(inclusive_scan, ref_incl0(v, std::plus<int>(), Id()));
	OUT(inclusive_scan, ref_incl0(v, Mul2(), Id()), Mul2());
	OUT(inclusive_scan, ref_incl(v, 3, Mul2(), Id()), Mul2(), 3);
	OUT(exclusive_scan, ref_excl(v, 3, std::plus<int>(), Id()), 3);
	OUT(exclusive_scan, ref_excl(v, 3, Mul2(), Id()), 3, Mul2());
	OUT(transform_exclusive_scan, ref_excl(v, 3, Mul2(), Neg()), 3, Mul2(), Neg());
	OUT(transform_inclusive_scan, ref_incl0(v, Mul2(), Neg()), Mul2(), Neg());
	OUT(transform_inclusive_scan, ref_incl(v, 3, Mul2(), Neg()), Mul2(), Neg(), 3);
	// the running value has the type of the initial value, not of the elements
	{ std::vector<W> w; W a(5); for (int x : v) { w.push_back(a); a = a + W(x); } Buf<W> o(std::vector<W>(n), W(7)); sprout::exclusive_scan(f, l, o.it<Tag>(0), W(5), Cat()); eq("exclusive_scan(word)", o.get(), w);
	  Buf<W> p(std::vector<W>(n), W(7)); sprout::transform_exclusive_scan(f, l, p.it<Tag>(0), W(5), Cat(), ToW()); eq("transform_exclusive_scan(word)", p.get(), w); Buf<W> q(std::vector<W>(n), W(7)); sprout::exclusive_scan(f, l, q.it<Tag>(0), W(5)); eq("exclusive_scan(word,+)", q.get(), w); }
	{ std::vector<W> w; W a(5); for (int x : v) { a = a + W(x); w.push_back(a); } Buf<W> o(std::vector<W>(n), W(7)); sprout::inclusive_scan(f, l, o.it<Tag>(0), Cat(), W(5)); eq("inclusive_scan(word)", o.get(), w);
	  Buf<W> p(std::vector<W>(n), W(7)); sprout::transform_inclusive_scan(f, l, p.it<Tag>(0), Cat(), ToW(), W(5)); eq("transform_inclusive_scan(word)", p.get(), w); okd("word guards", o.guards() && p.guards(), [] { return std::string("guard cells overwritten"); }); }
	{ Buf<int> o(v, -8); sprout::iota(o.it<Tag>(0), o.it<Tag>(n), 4); V w; for (int i = 0; i < n; ++i) w.push_back(4 + i); eq("iota", o.get(), w); okd("iota guards", o.guards(), [] { return std::string("guard cells overwritten"); }); }
}
template<class Tag> void run_scans() {
	int n = thorough() ? 8 : 6;
	bound("scans", "all sequences over {0,1,2} up to length " + std::to_string(n) + ", separate destination and in place");
	sequences_upto(n, 3, [&](V const& v) { scans<Tag>(v); });
}
MC_SECTION(scans_pointer) { run_scans<Ptr>(); }
MC_SECTION(scans_ra) { run_scans<ra>(); }
MC_SECTION(scans_bidi) { run_scans<bidi>(); }
MC_SECTION(scans_fwd) { run_scans<fwd>(); }
#endif

#if PART >= 3 || PART == 0
template<class C> struct New; // <Result> forms produce from a default container (pit): a fixed container of full size
#define RES(f, want, ...) do { typedef sprout::array<int, 3> R3; V w_ = (want); w_.resize(3); auto r_ = sprout::fixed::f<R3>(__VA_ARGS__); eq("fixed::" #f "<Result>", V(r_.begin(), r_.end()), w_); auto q_ = sprout::f<R3>(__VA_ARGS__); eq(#f "<Result>", V(q_.begin(), q_.end()), w_); } while (0)
template<class Tag> struct Fixed {
	Buf<int>* b; V v;
	template<class C> void operator()(Dest<C> const& d) {
		int n = v.size(); auto f = b->cit<Tag>(0); auto l = b->cit<Tag>(n);
		MC_STATE("source " + str(v) + " (" + tagname<Tag>::n() + ") result " + d.name);
		trace();
		BOTH(partial_sum, ref_incl0(v, std::plus<int>(), Id()), f, l, d.c);
		BOTH(partial_sum, ref_incl0(v, Sub(), Id()), f, l, d.c, Sub());
		BOTH(adjacent_difference, ref_adj(v, std::minus<int>()), f, l, d.c);
		BOTH(adjacent_difference, ref_adj(v, Mul2()), f, l, d.c, Mul2());
		BOTH(inclusive_scan, ref_incl0(v, std::plus<int>(), Id()), f, l, d.c);
		BOTH(inclusive_scan, ref_incl0(v, Sub(), Id()), f, l, d.c, Sub());
		BOTH(inclusive_scan, ref_incl(v, 3, Sub(), Id()), f, l, d.c, Sub(), 3);
		BOTH(exclusive_scan, ref_excl(v, 3, std::plus<int>(), Id()), f, l, d.c, 3);
		BOTH(exclusive_scan, ref_excl(v, 3, Sub(), Id()), f, l, d.c, 3, Sub());
		BOTH(transform_exclusive_scan, ref_excl(v, 3, Sub(), Neg()), f, l, d.c, 3, Sub(), Neg());
		BOTH(transform_inclusive_scan, ref_incl0(v, Sub(), Neg()), f, l, d.c, Sub(), Neg());
		BOTH(transform_inclusive_scan, ref_incl(v, 3, Sub(), Neg()), f, l, d.c, Sub(), Neg(), 3);
		if (v.empty()) { V w; for (int i = 0; i < d.size(); ++i) w.push_back(4 + i); BOTH(iota, w, d.c, 4); }
	}
	void results() {
		int n = v.size(); auto f = b->cit<Tag>(0); auto l = b->cit<Tag>(n);
		MC_STATE("source " + str(v) + " (" + tagname<Tag>::n() + ") new result"); trace();
		if (n < 3) return; // shorter sources leave default elements of the pit
		RES(partial_sum, ref_incl0(v, std::plus<int>(), Id()), f, l); RES(partial_sum, ref_incl0(v, Sub(), Id()), f, l, Sub());
		RES(adjacent_difference, ref_adj(v, std::minus<int>()), f, l); RES(adjacent_difference, ref_adj(v, Mul2()), f, l, Mul2());
		RES(inclusive_scan, ref_incl0(v, std::plus<int>(), Id()), f, l); RES(inclusive_scan, ref_incl0(v, Sub(), Id()), f, l, Sub()); RES(inclusive_scan, ref_incl(v, 3, Sub(), Id()), f, l, Sub(), 3);
		RES(exclusive_scan, ref_excl(v, 3, std::plus<int>(), Id()), f, l, 3); RES(exclusive_scan, ref_excl(v, 3, Sub(), Id()), f, l, 3, Sub());
		RES(transform_exclusive_scan, ref_excl(v, 3, Sub(), Neg()), f, l, 3, Sub(), Neg()); RES(transform_inclusive_scan, ref_incl0(v, Sub(), Neg()), f, l, Sub(), Neg()); RES(transform_inclusive_scan, ref_incl(v, 3, Sub(), Neg()), f, l, Sub(), Neg(), 3);
		{ V w; for (int i = 0; i < 3; ++i) w.push_back(v[0] + i); RES(iota, w, v[0]); }
	}
};
template<class Tag> void run_fixed(int bits) {
	int n = thorough() ? 6 : 4;
	bound("container forms", "all sequences over {0,1,2} up to length " + std::to_string(n) + " into every destination kind");
	sequences_upto(n, 3, [&](V const& v) { Buf<int> b(v, -9); Fixed<Tag> x = {&b, v}; for_dests(bits, x); if (bits & 1) x.results(); });
}
#if PART == 3
MC_SECTION(fixed_array_pointer) { run_fixed<Ptr>(1); }
#endif
#if PART == 4
MC_SECTION(fixed_array_fwd) { run_fixed<fwd>(1); }
#endif
#if PART == 5
MC_SECTION(fixed_window_pointer) { run_fixed<Ptr>(2); }
#endif
#if PART == 6
MC_SECTION(fixed_string_pointer) { run_fixed<Ptr>(4); }
#endif
#if PART == 7
MC_SECTION(fixed_window_fwd) { run_fixed<fwd>(2); }
#endif
#if PART == 8
MC_SECTION(fixed_array_nlra) { run_fixed<NLRa>(1); }
#endif
#endif
