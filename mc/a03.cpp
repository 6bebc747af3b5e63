#include "iters.hpp"
#include "preds.hpp"
#include <sprout/algorithm/modifying.hpp>
#include <sprout/algorithm/for_each.hpp>
#include <sprout/algorithm/for_each_n.hpp>
#include <sprout/algorithm/gather.hpp>
#include <sprout/algorithm/clamp_range.hpp>
#include <sprout/algorithm/copy_while.hpp>
#include <sprout/algorithm/copy_until.hpp>
#include <sprout/algorithm/partial_sort_copy.hpp>
#include <sprout/algorithm/merge.hpp>
#include <sprout/algorithm/set_union.hpp>
#include <sprout/algorithm/set_intersection.hpp>
#include <sprout/algorithm/set_difference.hpp>
#include <sprout/algorithm/set_symmetric_difference.hpp>
#include <algorithm>
using namespace mc;
typedef std::vector<int> V;
typedef std::vector<KV> W;
static W tagged(V const& v, int id0 = 0) { W w; for (size_t i = 0; i < v.size(); ++i) w.push_back(KV(v[i], id0 + (int)i)); return w; }
struct KPar { bool operator()(KV const& a, KV const& b) const { return (a.k & 1) == (b.k & 1); } };
struct KLeq { bool operator()(KV const& a, KV const& b) const { return a.k <= b.k; } };
struct KLess { bool operator()(KV const& a, KV const& b) const { return a.k < b.k; } };
struct KEven { typedef KV argument_type; typedef bool result_type; bool operator()(KV const& a) const { return (a.k & 1) == 0; } };
struct KLt { int v; bool operator()(KV const& a) const { return a.k < v; } };
struct Twice { int operator()(int a) const { return 2 * a + 1; } };
struct Comb { int operator()(int a, int b) const { return 10 * a + b; } };
static int counter;
struct Gen { int operator()() const { return ++counter; } };
static std::vector<int> visited;
struct Visit { int n; Visit() : n(0) {} void operator()(int x) { visited.push_back(x); ++n; } };

// destination buffer that is exactly as long as the standard result
template<class T> struct Dst {
	Buf<T> b;
	Dst(int n, T guard) { b.init(std::vector<T>(n, guard), guard); }
};
#define NAME(x) x
// run `call` (yielding an iterator into d) against the standard result `want` (a vector): contents, returned position, guards
#define OUT(name, T, guard, want_expr, call) { \
	std::vector<T> want = want_expr; int m = (int)want.size(); Dst<T> D(m, guard); auto d = D.b.template it<Tag>(0); (void)d; \
	int p = D.b.pos(call); \
	eq(name, D.b.get(), want); eq(name " return", p, m); ok(name " guard cells", D.b.guards()); ok(name " source unchanged", src_ok()); }

template<class Tag> struct is_ra : std::integral_constant<bool, std::is_same<Tag, ra>::value || std::is_same<Tag, Ptr>::value || std::is_same<Tag, NLRa>::value> {};
template<class Tag> struct is_bi : std::integral_constant<bool, is_ra<Tag>::value || std::is_same<Tag, bidi>::value || std::is_same<Tag, NLBidi>::value> {};

template<class Tag> void partial_copy(V const& v, std::true_type) {
	for (int m = 0; m <= (int)v.size() + 2; ++m) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " destination size " + str(m));
		Buf<int> s(v, 1); V wd(m, -7); int r = (int)(std::partial_sort_copy(v.begin(), v.end(), wd.begin(), wd.end()) - wd.begin());
		Buf<int> d; d.init(V(m, -7), -7);
		int p = d.pos(sprout::partial_sort_copy(s.template cit<Tag>(0), s.template cit<Tag>((int)v.size()), d.template it<Tag>(0), d.template it<Tag>(m)));
		eq("partial_sort_copy", d.get(), wd); eq("partial_sort_copy return", p, r); ok("partial_sort_copy guards", d.guards());
		Buf<int> d2; d2.init(V(m, -7), -7); V w2(m, -7); r = (int)(std::partial_sort_copy(v.begin(), v.end(), w2.begin(), w2.end(), Greater()) - w2.begin());
		p = d2.pos(sprout::partial_sort_copy(s.template cit<Tag>(0), s.template cit<Tag>((int)v.size()), d2.template it<Tag>(0), d2.template it<Tag>(m), Greater()));
		eq("partial_sort_copy(comp)", d2.get(), w2); eq("partial_sort_copy(comp) return", p, r);
	}
}
template<class Tag> void partial_copy(V const&, std::false_type) {}

template<class Tag> void bidir(V const& v, std::true_type) {
	int n = (int)v.size();
	{ V w(v); std::reverse(w.begin(), w.end()); Buf<int> b(v, 9); sprout::reverse(b.template it<Tag>(0), b.template it<Tag>(n)); eq("reverse", b.get(), w); ok("reverse guards", b.guards());
		Buf<int> s(v, 9), d; d.init(V(n, -1), -1); int p = d.pos(sprout::reverse_copy(s.template cit<Tag>(0), s.template cit<Tag>(n), d.template it<Tag>(0))); eq("reverse_copy", d.get(), w); eq("reverse_copy return", p, n); }
	{ Buf<int> s(v, 9), d; d.init(V(n, -1), -1); int p = d.pos(sprout::copy_backward(s.template cit<Tag>(0), s.template cit<Tag>(n), d.template it<Tag>(n))); eq("copy_backward", d.get(), v); eq("copy_backward return", p, 0); }
	{ Buf<int> s(v, 9), d; d.init(V(n, -1), -1); int p = d.pos(sprout::move_backward(s.template it<Tag>(0), s.template it<Tag>(n), d.template it<Tag>(n))); eq("move_backward", d.get(), v); eq("move_backward return", p, 0); }
	// overlapping: shift right by k inside one buffer
	for (int k = 0; k <= 2 && k <= n; ++k) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " shift right " + str(k));
		V w(v); std::copy_backward(w.begin(), w.end() - k, w.end());
		{ Buf<int> b(v, 9); int p = b.pos(sprout::copy_backward(b.template it<Tag>(0), b.template it<Tag>(n - k), b.template it<Tag>(n))); eq("copy_backward overlap", b.get(), w); eq("copy_backward overlap return", p, k); }
		{ Buf<int> b(v, 9); sprout::move_backward(b.template it<Tag>(0), b.template it<Tag>(n - k), b.template it<Tag>(n)); eq("move_backward overlap", b.get(), w); }
	}
	W t = tagged(v);
	{ W w(t); int q = (int)(std::stable_partition(w.begin(), w.end(), KEven()) - w.begin()); Buf<KV> b(t, KV(9, 9)); int p = b.pos(sprout::stable_partition(b.template it<Tag>(0), b.template it<Tag>(n), KEven())); eq("stable_partition", b.get(), w); eq("stable_partition return", p, q); ok("stable_partition guards", b.guards()); }
	for (int k = 0; k <= n; ++k) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " pivot " + str(k));
		struct Odd { bool operator()(KV const& a) const { return a.k & 1; } };
		W w(t); int a = (int)(std::stable_partition(w.begin(), w.begin() + k, Odd()) - w.begin()), c = (int)(std::stable_partition(w.begin() + k, w.end(), KEven()) - w.begin());
		Buf<KV> b(t, KV(9, 9)); auto r = sprout::gather(b.template it<Tag>(0), b.template it<Tag>(n), b.template it<Tag>(k), KEven());
		eq("gather", b.get(), w); eq("gather.first", b.pos(r.first), a); eq("gather.second", b.pos(r.second), c);
	}
}
template<class Tag> void bidir(V const&, std::false_type) {}

template<class Tag> void mod(V const& v, int letters) {
	MC_STATE(std::string(tagname<Tag>::n()) + " range " + str(v)); trace();
	int n = (int)v.size();
	Buf<int> S(v, 0); auto f = S.template cit<Tag>(0), l = S.template cit<Tag>(n);
	auto src_ok = [&]() { return S.unchanged(); };
	OUT("copy", int, -1, v, sprout::copy(f, l, d))
	OUT("move", int, -1, v, sprout::move(f, l, d))
	OUT("transform", int, -1, ([&]() { V w(n); std::transform(v.begin(), v.end(), w.begin(), Twice()); return w; }()), sprout::transform(f, l, d, Twice()))
	{ V v2(v.rbegin(), v.rend()); Buf<int> S2(v2, 0); auto f2 = S2.template cit<Tag>(0);
		OUT("transform(binary)", int, -1, ([&]() { V w(n); std::transform(v.begin(), v.end(), v2.begin(), w.begin(), Comb()); return w; }()), sprout::transform(f, l, f2, d, Comb())) }
	OUT("unique_copy", int, -1, ([&]() { V w; std::unique_copy(v.begin(), v.end(), std::back_inserter(w)); return w; }()), sprout::unique_copy(f, l, d))
	{ V w(v); Buf<int> b(v, 5); w.erase(std::unique(w.begin(), w.end()), w.end()); int p = b.pos(sprout::unique(b.template it<Tag>(0), b.template it<Tag>(n))); eq("unique return", p, (int)w.size()); V g = b.get(); g.resize(std::min<size_t>(g.size(), p)); eq("unique", g, w); ok("unique guards", b.guards()); }
	for (int k = 0; k <= n; ++k) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " n " + str(k));
		OUT("copy_n", int, -1, V(v.begin(), v.begin() + k), sprout::copy_n(f, k, d))
		OUT("fill_n", int, -1, V(k, 3), sprout::fill_n(d, k, 3))
		OUT("generate_n", int, -1, ([&]() { V w; for (int i = 1; i <= k; ++i) w.push_back(i); return w; }()), (counter = 0, sprout::generate_n(d, k, Gen())))
		OUT("rotate_copy", int, -1, ([&]() { V w(n); std::rotate_copy(v.begin(), v.begin() + k, v.end(), w.begin()); return w; }()), sprout::rotate_copy(f, S.template cit<Tag>(k), l, d))
		{ V w(v); Buf<int> b(v, 5); int q = (int)(std::rotate(w.begin(), w.begin() + k, w.end()) - w.begin()); int p = b.pos(sprout::rotate(b.template it<Tag>(0), b.template it<Tag>(k), b.template it<Tag>(n))); eq("rotate", b.get(), w); eq("rotate return", p, q); ok("rotate guards", b.guards()); }
		{ visited.clear(); int p = S.pos(sprout::for_each_n(f, k, Visit())); eq("for_each_n", visited, V(v.begin(), v.begin() + k)); eq("for_each_n return", p, k); }
		if (k <= 2) { V w(v); std::copy(w.begin() + k, w.end(), w.begin());
			Buf<int> b(v, 9); int p = b.pos(sprout::copy(b.template it<Tag>(k), b.template it<Tag>(n), b.template it<Tag>(0))); eq("copy overlap", b.get(), w); eq("copy overlap return", p, n - k);
			Buf<int> c(v, 9); p = c.pos(sprout::move(c.template it<Tag>(k), c.template it<Tag>(n), c.template it<Tag>(0))); eq("move overlap", c.get(), w); eq("move overlap return", p, n - k); }
		// sub-range [k, n) of the buffer only
		{ V w(v); Buf<int> b(v, 5); std::fill(w.begin() + k, w.end(), 4); sprout::fill(b.template it<Tag>(k), b.template it<Tag>(n), 4); eq("fill", b.get(), w); ok("fill guards", b.guards()); }
		{ V w(v); Buf<int> b(v, 5); counter = 0; std::generate(w.begin() + k, w.end(), Gen()); counter = 0; sprout::generate(b.template it<Tag>(k), b.template it<Tag>(n), Gen()); eq("generate", b.get(), w); ok("generate guards", b.guards()); }
		{ V w(v), z(v.rbegin(), v.rend()); Buf<int> b(v, 5), c(z, 6); std::swap_ranges(w.begin() + k, w.end(), z.begin()); int p = c.pos(sprout::swap_ranges(b.template it<Tag>(k), b.template it<Tag>(n), c.template it<Tag>(0))); eq("swap_ranges", b.get(), w); eq("swap_ranges second", c.get(), z); eq("swap_ranges return", p, n - k); }
	}
	{ visited.clear(); Visit r = sprout::for_each(f, l, Visit()); eq("for_each", visited, v); eq("for_each returns the function", r.n, n); }
	for (int c = 0; c < letters; ++c) {
		MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " value " + str(c));
		OUT("remove_copy", int, -1, ([&]() { V w; std::remove_copy(v.begin(), v.end(), std::back_inserter(w), c); return w; }()), sprout::remove_copy(f, l, d, c))
		OUT("replace_copy", int, -1, ([&]() { V w(v); std::replace(w.begin(), w.end(), c, 7); return w; }()), sprout::replace_copy(f, l, d, c, 7))
		OUT("replace_copy_if", int, -1, ([&]() { V w(v); std::replace_if(w.begin(), w.end(), Lt(c), 7); return w; }()), sprout::replace_copy_if(f, l, d, Lt(c), 7))
		OUT("copy_while", int, -1, V(v.begin(), std::find_if_not(v.begin(), v.end(), Is(c))), sprout::copy_while(f, l, d, Is(c)).second)
		OUT("copy_until", int, -1, V(v.begin(), std::find_if(v.begin(), v.end(), Is(c))), sprout::copy_until(f, l, d, Is(c)).second)
		{ Buf<int> d; d.init(V(n, -1), -1); eq("copy_while source return", S.pos(sprout::copy_while(f, l, d.template it<Tag>(0), Is(c)).first), (int)(std::find_if_not(v.begin(), v.end(), Is(c)) - v.begin())); }
		{ Buf<int> d; d.init(V(n, -1), -1); eq("copy_until source return", S.pos(sprout::copy_until(f, l, d.template it<Tag>(0), Is(c)).first), (int)(std::find_if(v.begin(), v.end(), Is(c)) - v.begin())); }
		for (int h = c; h < letters; ++h) {
			OUT("clamp_range", int, -1, ([&]() { V w; for (int x : v) w.push_back(x < c ? c : x > h ? h : x); return w; }()), sprout::clamp_range(f, l, d, c, h))
			OUT("clamp_range(comp)", int, -1, ([&]() { V w; for (int x : v) w.push_back(x < c ? c : x > h ? h : x); return w; }()), sprout::clamp_range(f, l, d, h, c, Greater()))
		}
		{ V w(v); w.erase(std::remove(w.begin(), w.end(), c), w.end()); Buf<int> b(v, 5); int p = b.pos(sprout::remove(b.template it<Tag>(0), b.template it<Tag>(n), c)); eq("remove return", p, (int)w.size()); V g = b.get(); g.resize(std::min<size_t>(g.size(), p)); eq("remove", g, w); ok("remove guards", b.guards()); }
		{ V w(v); std::replace(w.begin(), w.end(), c, 7); Buf<int> b(v, c); sprout::replace(b.template it<Tag>(0), b.template it<Tag>(n), c, 7); eq("replace", b.get(), w); ok("replace guards", b.guards()); }
		{ V w(v); std::replace_if(w.begin(), w.end(), Lt(c), 7); Buf<int> b(v, c); sprout::replace_if(b.template it<Tag>(0), b.template it<Tag>(n), Lt(c), 7); eq("replace_if", b.get(), w); ok("replace_if guards", b.guards()); }
	}
	// elements with identity
	W t = tagged(v); Buf<KV> T(t, KV(0, -5)); auto kf = T.template cit<Tag>(0), kl = T.template cit<Tag>(n);
	{
		auto src_ok = [&]() { return T.unchanged(); };
		KV G(-1, -1);
		for (int c = 0; c <= letters; ++c) {
			MC_DESC(std::string(tagname<Tag>::n()) + " range " + str(v) + " predicate key<" + str(c));
			KLt P = {c}; struct NotP { KLt p; bool operator()(KV const& a) const { return !p(a); } }; NotP NP = {P};
			OUT("copy_if", KV, G, ([&]() { W w; std::copy_if(t.begin(), t.end(), std::back_inserter(w), P); return w; }()), sprout::copy_if(kf, kl, d, P))
			OUT("remove_copy_if", KV, G, ([&]() { W w; std::remove_copy_if(t.begin(), t.end(), std::back_inserter(w), P); return w; }()), sprout::remove_copy_if(kf, kl, d, P))
			W a, z; std::partition_copy(t.begin(), t.end(), std::back_inserter(a), std::back_inserter(z), P);
			Dst<KV> D1((int)a.size(), G), D2((int)z.size(), G); auto r = sprout::partition_copy(kf, kl, D1.b.template it<Tag>(0), D2.b.template it<Tag>(0), P);
			eq("partition_copy true", D1.b.get(), a); eq("partition_copy false", D2.b.get(), z); eq("partition_copy.first", D1.b.pos(r.first), (int)a.size()); eq("partition_copy.second", D2.b.pos(r.second), (int)z.size());
			{ Buf<KV> b(t, KV(0, -5)); int p = b.pos(sprout::remove_if(b.template it<Tag>(0), b.template it<Tag>(n), P)); eq("remove_if return", p, (int)z.size()); W g_ = b.get(); g_.resize(std::min<size_t>(g_.size(), p)); eq("remove_if", g_, z); ok("remove_if guards", b.guards()); }
			{ Buf<KV> b(t, KV(0, -5)); int p = b.pos(sprout::partition(b.template it<Tag>(0), b.template it<Tag>(n), P)); W g_ = b.get();
				eq("partition return", p, (int)a.size()); ok("partition boundary", p <= n && std::all_of(g_.begin(), g_.begin() + p, P) && std::none_of(g_.begin() + p, g_.end(), P));
				ok("partition permutes", std::is_permutation(g_.begin(), g_.end(), t.begin())); ok("partition guards", b.guards()); }
		}
		OUT("unique_copy(parity)", KV, G, ([&]() { W w; for (auto& x : t) if (w.empty() || !KPar()(w.back(), x)) w.push_back(x); return w; }()), sprout::unique_copy(kf, kl, d, KPar()))
		{ W w(t); w.erase(std::unique(w.begin(), w.end(), KPar()), w.end()); Buf<KV> b(t, KV(0, -5)); int p = b.pos(sprout::unique(b.template it<Tag>(0), b.template it<Tag>(n), KPar())); eq("unique(parity) return", p, (int)w.size()); W g_ = b.get(); g_.resize(std::min<size_t>(g_.size(), p)); eq("unique(parity)", g_, w); }
	}
	bidir<Tag>(v, is_bi<Tag>());
	partial_copy<Tag>(v, is_ra<Tag>());
}
template<class Tag> void mod_all() {
	sequences_upto(thorough() ? 8 : 6, 3, [](V const& v) { mod<Tag>(v, 4); });
	for (int n = thorough() ? 9 : 7; n <= (thorough() ? 13 : 10); ++n) sequences(n, 2, [](V const& v) { mod<Tag>(v, 3); });
	for (int n = 9; n <= (thorough() ? 40 : 20); ++n) {
		V a(n); for (int i = 0; i < n; ++i) a[i] = i; mod<Tag>(a, 2); std::reverse(a.begin(), a.end()); mod<Tag>(a, 2);
		deviations(n, 0, 2, thorough() && n < 20 ? 2 : 1, [&](V const& v) { mod<Tag>(v, 2); });
		for (int i = 0; i < n; ++i) { V q(n, 0); for (int j = i; j < n; ++j) q[j] = 1; mod<Tag>(q, 2); }
	}
}
MC_SECTION(mod_forward) { mod_all<fwd>(); }
MC_SECTION(mod_bidirectional) { mod_all<bidi>(); }
MC_SECTION(mod_random_access) { mod_all<ra>(); }
MC_SECTION(mod_pointer) { mod_all<Ptr>(); }
MC_SECTION(mod_nonliteral) { sequences_upto(4, 3, [](V const& v) { mod<NLFwd>(v, 4); mod<NLBidi>(v, 4); mod<NLRa>(v, 4); }); }

// ---- two sorted ranges ---------------------------------------------------------------------------------------
template<class Tag, class C> void setops(V const& a, V const& c, C comp, bool natural) {
	MC_STATE(std::string(tagname<Tag>::n()) + " sorted " + str(a) + " " + str(c)); trace();
	W x = tagged(a, 0), y = tagged(c, 100); KV G(-1, -1);
	Buf<KV> X(x, KV(0, -5)), Y(y, KV(0, -6)); int n = (int)x.size(), m = (int)y.size();
	auto f = X.template cit<Tag>(0), l = X.template cit<Tag>(n), g_ = Y.template cit<Tag>(0), h = Y.template cit<Tag>(m);
	auto src_ok = [&]() { return X.unchanged() && Y.unchanged(); };
	#define SET(op) \
		OUT(#op "(comp)", KV, G, ([&]() { W w; std::op(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(w), comp); return w; }()), sprout::op(f, l, g_, h, d, comp)) \
		if (natural) OUT(#op, KV, G, ([&]() { W w; std::op(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(w)); return w; }()), sprout::op(f, l, g_, h, d))
	SET(merge) SET(set_union) SET(set_intersection) SET(set_difference) SET(set_symmetric_difference)
}
template<class Tag> void set_all() {
	std::vector<V> s, d; sequences_upto(thorough() ? 6 : 5, thorough() ? 4 : 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) { s.push_back(v); d.push_back(V(v.rbegin(), v.rend())); } });
	for (auto& a : s) for (auto& c : s) setops<Tag>(a, c, KLess(), true);
	for (auto& a : d) for (auto& c : d) setops<Tag>(a, c, KeyGreater(), false);
	for (int n = 6; n <= 20; ++n) for (int i = 0; i <= n; ++i) {
		V a(n), b; for (int k = 0; k < n; ++k) a[k] = k; for (int k = i; k < n + 2; ++k) b.push_back(k);
		setops<Tag>(a, b, KLess(), true); setops<Tag>(b, a, KLess(), true);
		V e; for (int k = 0; k < n; ++k) if (k != i) e.push_back(k); setops<Tag>(a, e, KLess(), true); setops<Tag>(e, a, KLess(), true);
	}
}
MC_SECTION(set_forward) { set_all<fwd>(); }
MC_SECTION(set_random_access) { set_all<ra>(); }
MC_SECTION(set_pointer) { set_all<Ptr>(); }
