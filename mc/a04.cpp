#include "iters.hpp"
#include "preds.hpp"
#include <sprout/algorithm/cxx14/sort.hpp>
#include <sprout/algorithm/cxx14/stable_sort.hpp>
#include <sprout/algorithm/cxx14/partial_sort.hpp>
#include <sprout/algorithm/cxx14/nth_element.hpp>
#include <sprout/algorithm/cxx14/inplace_merge.hpp>
#include <sprout/algorithm/cxx14/make_heap.hpp>
#include <sprout/algorithm/cxx14/push_heap.hpp>
#include <sprout/algorithm/cxx14/pop_heap.hpp>
#include <sprout/algorithm/cxx14/sort_heap.hpp>
#include <sprout/algorithm/cxx14/next_permutation.hpp>
#include <sprout/algorithm/cxx14/prev_permutation.hpp>
#include <algorithm>
using namespace mc;
typedef std::vector<int> V;
// element that is not trivially copyable (the library picks a smaller cut-off); a moved-from value is visibly dead
struct NT {
	int k, id;
	NT() : k(0), id(0) {}
	NT(int k_, int i_) : k(k_), id(i_) {}
	NT(NT const& o) : k(o.k), id(o.id) {}
	NT(NT&& o) : k(o.k), id(o.id) { o.id = -99; }
	NT& operator=(NT const& o) { k = o.k; id = o.id; return *this; }
	NT& operator=(NT&& o) { k = o.k; id = o.id; if (&o != this) o.id = -99; return *this; }
	friend bool operator==(NT const& a, NT const& b) { return a.k == b.k && a.id == b.id; }
	friend bool operator<(NT const& a, NT const& b) { return a.k < b.k; }
	friend bool operator>(NT const& a, NT const& b) { return b.k < a.k; }
	friend std::ostream& operator<<(std::ostream& s, NT const& v) { return s << v.k << "#" << v.id; }
};
struct LessK { template<class T> bool operator()(T const& a, T const& b) const { return a.k < b.k; } };
struct GreaterK { template<class T> bool operator()(T const& a, T const& b) const { return a.k > b.k; } };
struct ModK { template<class T> bool operator()(T const& a, T const& b) const { return (a.k & 1) < (b.k & 1); } };
struct Default {}; // the overload without a comparison
template<class C> struct order { typedef C type; }; template<> struct order<Default> { typedef LessK type; };
template<class C> struct cname; template<> struct cname<LessK> { static const char* n() { return "less"; } }; template<> struct cname<GreaterK> { static const char* n() { return "greater"; } }; template<> struct cname<ModK> { static const char* n() { return "parity"; } }; template<> struct cname<Default> { static const char* n() { return "default"; } };
template<class T> struct tname; template<> struct tname<KV> { static const char* n() { return "trivial"; } }; template<> struct tname<NT> { static const char* n() { return "non-trivial"; } };

#define CALL(fn, fname) struct fname { \
	template<class... A> static void go(Default, A... a) { sprout::fn(a...); } \
	template<class C, class... A> static void go(C c, A... a) { sprout::fn(a..., c); } }; \
	template<class... A> static void call_##fn(A...);
CALL(sort, Sort) CALL(stable_sort, StableSort) CALL(partial_sort, PartialSort) CALL(nth_element, NthElement) CALL(inplace_merge, InplaceMerge)
CALL(make_heap, MakeHeap) CALL(push_heap, PushHeap) CALL(pop_heap, PopHeap) CALL(sort_heap, SortHeap)

template<class T> std::vector<T> tagged(V const& v) { std::vector<T> w; for (size_t i = 0; i < v.size(); ++i) w.push_back(T(v[i], (int)i)); return w; }
struct ById { template<class T> bool operator()(T const& a, T const& b) const { return a.id < b.id; } };
template<class T> bool permuted(std::vector<T> a, std::vector<T> b) { std::sort(a.begin(), a.end(), ById()); std::sort(b.begin(), b.end(), ById()); return a == b; }
template<class T> std::string show(std::vector<T> const& v) { return "got " + str(v); }

template<class T, class Tag, class C> void sorts(V const& v, C c, bool cuts) {
	typedef typename order<C>::type Ord; Ord o;
	MC_STATE(std::string(tname<T>::n()) + " " + tagname<Tag>::n() + " " + cname<C>::n() + " " + str(v)); trace();
	int n = (int)v.size(); std::vector<T> t = tagged<T>(v);
	std::vector<T> st(t); std::stable_sort(st.begin(), st.end(), o);
	T G(0, -7);
	#define RUN(F, ...) Buf<T> b; b.init(t, G); F::go(c, __VA_ARGS__); std::vector<T> r = b.get();
	#define AT(i) b.template it<Tag>(i)
	{ RUN(Sort, AT(0), AT(n)) okd("sort orders", std::is_sorted(r.begin(), r.end(), o), [&]() { return show(r); }); okd("sort permutes", permuted(r, t), [&]() { return show(r); }); ok("sort guards", b.guards()); }
	{ RUN(StableSort, AT(0), AT(n)) eq("stable_sort", r, st); ok("stable_sort guards", b.guards()); }
	{ RUN(MakeHeap, AT(0), AT(n)) okd("make_heap makes a heap", std::is_heap(r.begin(), r.end(), o), [&]() { return show(r); }); okd("make_heap permutes", permuted(r, t), [&]() { return show(r); });
		SortHeap::go(c, AT(0), AT(n)); r = b.get(); okd("sort_heap orders", std::is_sorted(r.begin(), r.end(), o), [&]() { return show(r); }); okd("sort_heap permutes", permuted(r, t), [&]() { return show(r); }); ok("heap guards", b.guards()); }
	int step = cuts ? 1 : std::max(1, n / 4);
	for (int k = 0; k <= n; k += step) {
		MC_DESC(std::string(tname<T>::n()) + " " + tagname<Tag>::n() + " " + cname<C>::n() + " " + str(v) + " cut " + str(k));
		{ RUN(PartialSort, AT(0), AT(k), AT(n))
			bool good = std::is_sorted(r.begin(), r.begin() + k, o); for (int i = 0; i < k; ++i) if (o(r[i], st[i]) || o(st[i], r[i])) good = false;
			okd("partial_sort prefix", good, [&]() { return show(r); }); okd("partial_sort permutes", permuted(r, t), [&]() { return show(r); }); ok("partial_sort guards", b.guards()); }
		{ RUN(NthElement, AT(0), AT(k), AT(n))
			bool good = true; if (k < n) { if (o(r[k], st[k]) || o(st[k], r[k])) good = false; for (int i = 0; i < k; ++i) if (o(r[k], r[i])) good = false; for (int i = k + 1; i < n; ++i) if (o(r[i], r[k])) good = false; }
			okd("nth_element partitions", good, [&]() { return show(r); }); okd("nth_element permutes", permuted(r, t), [&]() { return show(r); }); ok("nth_element guards", b.guards()); }
	}
}
template<class T, class Tag, class C> void merges(V const& v, C c) { // every cut with two sorted halves
	typedef typename order<C>::type Ord; Ord o; int n = (int)v.size(); std::vector<T> t = tagged<T>(v); T G(0, -7);
	for (int k = 0; k <= n; ++k) {
		if (!std::is_sorted(t.begin(), t.begin() + k, o) || !std::is_sorted(t.begin() + k, t.end(), o)) continue;
		MC_STATE(std::string(tname<T>::n()) + " " + tagname<Tag>::n() + " " + cname<C>::n() + " " + str(v) + " cut " + str(k)); trace();
		std::vector<T> st(t); std::stable_sort(st.begin(), st.end(), o);
		RUN(InplaceMerge, AT(0), AT(k), AT(n)) eq("inplace_merge", r, st); ok("inplace_merge guards", b.guards());
	}
}
template<class T, class Tag> void sort_all() {
	int L = thorough() ? 9 : 7;
	sequences_upto(L, 3, [](V const& v) { sorts<T, Tag>(v, Default(), true); sorts<T, Tag>(v, GreaterK(), true); });
	sequences_upto(L - 1, 4, [](V const& v) { sorts<T, Tag>(v, ModK(), true); });
	for (int n = L + 1; n <= (thorough() ? 14 : 10); ++n) sequences(n, 2, [](V const& v) { sorts<T, Tag>(v, LessK(), true); });
	{ V p(7); for (int n = 1; n <= (thorough() ? 9 : 8); ++n) { p.resize(n); for (int i = 0; i < n; ++i) p[i] = i; do sorts<T, Tag>(p, Default(), true); while (std::next_permutation(p.begin(), p.end())); } }
	bound("exhaustive", "3 letters to 7 (9), 2 letters to 10 (14), all permutations to 8 (9), structured 5..70 and 998..1003");
}
static void patterns(int n, std::function<void(V const&)> const& f, bool all) {
	V a(n), z(n);
	auto gen = [&](std::function<int(int)> g) { for (int i = 0; i < n; ++i) z[i] = g(i); f(z); };
	gen([&](int i) { return i; }); gen([&](int i) { return n - i; }); gen([&](int) { return 1; });
	gen([&](int i) { return i < n / 2 ? i : n - i; }); gen([&](int i) { return i < n / 2 ? n - i : i; });
	gen([&](int i) { return i & 1; }); gen([&](int i) { return (i * 7) % 11; }); gen([&](int i) { return (i * 37 + 11) % (n + 1); });
	gen([&](int i) { return i < n / 2 ? 1 : 0; }); gen([&](int i) { return i & 1 ? i : -i; }); gen([&](int i) { return i == 0 ? n : i; }); gen([&](int i) { return i == n - 1 ? -1 : i; });
	gen([&](int i) { return (i * i) % 13; }); gen([&](int i) { return i % 3; }); gen([&](int i) { return i / 3; }); gen([&](int i) { return -(i / 3); });
	if (!all) return;
	// ascending / descending / constant with every single cell replaced by a smallest, largest or middle value
	for (int i = 0; i < n; ++i) for (int x = 0; x < 3; ++x) {
		int w = x == 0 ? -1 : x == 1 ? n + 1 : n / 2;
		gen([&](int j) { return j == i ? w : j; }); gen([&](int j) { return j == i ? w : n - j; }); gen([&](int j) { return j == i ? w : n / 2 + 1; });
	}
	// every rotation of the ascending sequence
	for (int i = 1; i < n; ++i) gen([&](int j) { return (j + i) % n; });
	// 0/1 with every pair of ones/zeroes
	deviations(n, 0, 2, n < 40 ? 2 : 1, [&](V const& v) { f(v); V w(v); for (int& x : w) x = 1 - x; f(w); });
}
template<class T, class Tag> void sort_long() {
	for (int n = 5; n <= (thorough() ? 70 : 36); ++n) patterns(n, [](V const& v) { sorts<T, Tag>(v, Default(), false); sorts<T, Tag>(v, GreaterK(), false); }, thorough() || n < 16 || (n > 28 && n < 35));
	if (thorough()) for (int n = 11; n <= 34; ++n) patterns(n, [](V const& v) { sorts<T, Tag>(v, Default(), true); }, n < 20);
	int ns[] = {64, 65, 100, 127, 998, 999, 1000, 1001, 1003};
	for (int n : ns) patterns(n, [](V const& v) { sorts<T, Tag>(v, Default(), false); sorts<T, Tag>(v, ModK(), false); }, false);
}
MC_SECTION(sort_trivial) { sort_all<KV, ra>(); }
MC_SECTION(sort_nontrivial) { sort_all<NT, ra>(); }
MC_SECTION(sort_pointer) { sort_all<KV, Ptr>(); }
MC_SECTION(sort_long_trivial) { sort_long<KV, ra>(); }
MC_SECTION(sort_long_nontrivial) { sort_long<NT, ra>(); }
MC_SECTION(sort_long_pointer) { sort_long<NT, Ptr>(); }
template<class T, class Tag> void merge_all() {
	sequences_upto(thorough() ? 9 : 7, 3, [](V const& v) { merges<T, Tag>(v, Default()); merges<T, Tag>(v, GreaterK()); });
	sequences_upto(thorough() ? 7 : 6, 4, [](V const& v) { merges<T, Tag>(v, ModK()); });
	for (int n = 8; n <= (thorough() ? 60 : 36); ++n) for (int k = 0; k <= n; ++k) {
		V q(n);
		auto gen = [&](int (*lf)(int), int (*rf)(int, int)) { for (int i = 0; i < n; ++i) q[i] = i < k ? lf(i) : rf(i, k); merges<T, Tag>(q, Default()); };
		gen([](int i) { return 2 * i; }, [](int i, int k) { return 2 * (i - k) + 1; }); gen([](int i) { return i / 2; }, [](int i, int k) { return (i - k) / 2; }); gen([](int i) { return 100 + i; }, [](int i, int) { return i; }); gen([](int) { return 1; }, [](int, int) { return 1; }); gen([](int i) { return i / 3; }, [](int i, int k) { return (i - k) / 4 + 1; });
	}
}
MC_SECTION(merge_bidirectional) { merge_all<KV, bidi>(); }
MC_SECTION(merge_random_access) { merge_all<NT, ra>(); }
MC_SECTION(merge_pointer) { merge_all<KV, Ptr>(); }

// ---- heap histories: push and pop from every reachable heap --------------------------------------------------
struct H { std::vector<KV> v; int next; };
template<class Tag, class C> void heap_hist(C c, int letters, int cap) {
	typedef typename order<C>::type Ord; Ord o;
	std::vector<Op<H> > ops;
	for (int x = 0; x < letters; ++x) {
		Op<H> p; p.name = "push " + str(x); p.run = [=](H& s) {
			if ((int)s.v.size() >= cap) return false;
			s.v.push_back(KV(x, s.next++)); std::vector<KV> t(s.v);
			Buf<KV> b; b.init(s.v, KV(0, -7)); PushHeap::go(c, b.template it<Tag>(0), b.template it<Tag>((int)s.v.size())); s.v = b.get();
			okd("push_heap keeps the heap", std::is_heap(s.v.begin(), s.v.end(), o), [&]() { return show(s.v); }); ok("push_heap permutes", permuted(s.v, t)); ok("push_heap guards", b.guards()); return true; };
		ops.push_back(p);
	}
	Op<H> q; q.name = "pop"; q.run = [=](H& s) {
		if (s.v.empty()) return false; std::vector<KV> t(s.v);
		Buf<KV> b; b.init(s.v, KV(0, -7)); PopHeap::go(c, b.template it<Tag>(0), b.template it<Tag>((int)s.v.size())); s.v = b.get();
		okd("pop_heap keeps the heap", std::is_heap(s.v.begin(), s.v.end() - 1, o), [&]() { return show(s.v); }); ok("pop_heap permutes", permuted(s.v, t)); ok("pop_heap moves the front", s.v.back() == t.front()); ok("pop_heap guards", b.guards());
		s.v.pop_back(); return true; };
	ops.push_back(q);
	Op<H> w; w.name = "sort"; w.run = [=](H& s) {
		Buf<KV> b; b.init(s.v, KV(0, -7)); SortHeap::go(c, b.template it<Tag>(0), b.template it<Tag>((int)s.v.size())); std::vector<KV> r = b.get();
		okd("sort_heap orders", std::is_sorted(r.begin(), r.end(), o), [&]() { return show(r); }); return false; };
	ops.push_back(w);
	H init; init.next = 0;
	bfs<H>(init, ops, [](H const& s) { std::string k; for (auto& e : s.v) k += (char)('0' + e.k); return k; }, 1000, 3000000);
}
MC_SECTION(heap_default) { heap_hist<ra>(Default(), 3, thorough() ? 12 : 9); }
MC_SECTION(heap_greater) { heap_hist<ra>(GreaterK(), 4, thorough() ? 9 : 7); }
MC_SECTION(heap_pointer) { heap_hist<Ptr>(ModK(), 4, thorough() ? 9 : 7); }
MC_SECTION(heap_wide) { heap_hist<ra>(Default(), 2, thorough() ? 20 : 16); }

// ---- permutations --------------------------------------------------------------------------------------------
struct MLess { bool operator()(int a, int b) const { return (a % 3) < (b % 3); } };
template<class Tag> void perm_one(V const& v) {
	MC_STATE(std::string(tagname<Tag>::n()) + " " + str(v)); trace(); int n = (int)v.size();
	#define PERM(name, fn, ...) { V w(v); bool e = std::fn(w.begin(), w.end() __VA_ARGS__); Buf<int> b(v, 1); bool r = sprout::fn(b.template it<Tag>(0), b.template it<Tag>(n) __VA_ARGS__); eq(name, r, e); eq(name " result", b.get(), w); ok(name " guards", b.guards()); }
	#define COMMA ,
	PERM("next_permutation", next_permutation, ) PERM("prev_permutation", prev_permutation, )
	PERM("next_permutation(greater)", next_permutation, COMMA Greater()) PERM("prev_permutation(greater)", prev_permutation, COMMA Greater())
	PERM("next_permutation(mod)", next_permutation, COMMA MLess()) PERM("prev_permutation(mod)", prev_permutation, COMMA MLess())
}
template<class Tag> void perm_all() {
	sequences_upto(thorough() ? 9 : 7, 3, [](V const& v) { perm_one<Tag>(v); });
	sequences_upto(thorough() ? 7 : 6, 4, [](V const& v) { perm_one<Tag>(v); });
	// complete cycles
	for (int n = 1; n <= (thorough() ? 8 : 7); ++n) sequences(n, std::min(n, 4), [&](V const& v) {
		if (!std::is_sorted(v.begin(), v.end())) return;
		V s(v); if (n > 4) for (int i = 4; i < n; ++i) s[i] += i - 3;
		std::sort(s.begin(), s.end());
		MC_STATE("cycle of " + str(s)); trace();
		long want = 0; { V w(s); do ++want; while (std::next_permutation(w.begin(), w.end())); }
		V w(s); long cnt = 0; V prev; bool inc = true;
		do { if (cnt && !(prev < w)) inc = false; prev = w; ++cnt; if (cnt > want) break; Buf<int> b(w, 1); bool more = sprout::next_permutation(b.template it<Tag>(0), b.template it<Tag>(n)); w = b.get(); if (!more) break; } while (true);
		eq("next_permutation cycle length", cnt, want); ok("next_permutation cycle increases", inc); eq("next_permutation wraps to sorted", w, s);
		V d(s.rbegin(), s.rend()); w = d; cnt = 0; inc = true;
		do { if (cnt && !(w < prev)) inc = false; prev = w; ++cnt; if (cnt > want) break; Buf<int> b(w, 1); bool more = sprout::prev_permutation(b.template it<Tag>(0), b.template it<Tag>(n)); w = b.get(); if (!more) break; } while (true);
		eq("prev_permutation cycle length", cnt, want); ok("prev_permutation cycle decreases", inc); eq("prev_permutation wraps to reverse sorted", w, d);
	});
}
MC_SECTION(perm_bidirectional) { perm_all<bidi>(); }
MC_SECTION(perm_pointer) { perm_all<Ptr>(); }
