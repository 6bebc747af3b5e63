// V09: the intrusive forward list behaves as a list
#include "mc.hpp"
#include <sprout/forward_clist.hpp>
#include <string>
#include <deque>
using namespace mc;
namespace so = sprout;
typedef std::vector<int> I;
template<class T> T make(int v); template<> int make<int>(int v) { return v; } template<> std::string make<std::string>(int v) { return "item " + std::to_string(v); }
// two lists over N items, and the model: the sequences of item numbers and the values of the items
template<class T> struct World {
	typedef so::forward_clist<T> L; typedef typename L::item It; typedef typename L::iterator Iter; typedef typename L::const_iterator CIter;
	std::deque<It> store; std::vector<It*> it; L l[2]; std::vector<I> m; std::vector<T> val;
	explicit World(int n) : m(2) { for (int i = 0; i < n; ++i) { store.emplace_back(make<T>(i)); it.push_back(&store.back()); val.push_back(make<T>(i)); } }
	int n() const { return (int)it.size(); }
	int where(int i) const { for (int k = 0; k < 2; ++k) for (int x : m[k]) if (x == i) return k; return -1; }
	Iter pos(int k, int p) { Iter r = l[k].before_begin(); for (; p > 0; --p) ++r; return r; } // p items after the one before the first
	bool free(I const& v) const { for (int i : v) if (where(i) >= 0) return false; return true; }
	std::string key() const { return str(m[0]) + str(m[1]); }
};
// a range of items given by numbers
template<class T> struct Range {
	typedef typename so::forward_clist<T>::item It; World<T>* w; int const* p;
	typedef It value_type; typedef It& reference; typedef It* pointer; typedef std::ptrdiff_t difference_type; typedef std::input_iterator_tag iterator_category;
	It& operator*() const { return *w->it[*p]; } Range& operator++() { ++p; return *this; } Range operator++(int) { Range r = *this; ++p; return r; } bool operator==(Range const& o) const { return p == o.p; } bool operator!=(Range const& o) const { return p != o.p; }
};
template<class T> struct Act { std::string name; std::function<bool(World<T>&, bool)> run; }; // false: not applicable
template<class T> void verify(World<T>& w) {
	typedef typename so::forward_clist<T> L; 
	for (int k = 0; k < 2; ++k) {
		L& l = w.l[k]; L const& c = l; I const& m = w.m[k]; std::vector<T> want, got; for (int i : m) want.push_back(w.val[i]); std::size_t lim = w.n() + 2;
		for (auto i = l.begin(); i != l.end() && got.size() < lim; ++i) got.push_back(*i); eq("begin/end", got, want); if (got != want) return;
		got.clear(); for (auto i = c.begin(); i != c.end() && got.size() < lim; i++) got.push_back(*i); eq("begin/end of a constant", got, want); got.clear(); for (auto i = c.cbegin(); i != c.cend() && got.size() < lim; ++i) got.push_back(*i); eq("cbegin/cend", got, want);
		eq("empty", c.empty(), m.empty()); eq("begin == end", l.begin() == l.end(), m.empty()); if (!m.empty()) { eq("front", l.front(), want[0]); eq("front of a constant", c.front(), want[0]); eq("front address", &l.front() == &w.it[m[0]]->get(), true); eq("->", *l.begin().operator->(), want[0]); }
		{ auto b = l.before_begin(); ++b; eq("after before_begin", b == l.begin(), true); auto d = c.before_begin(); ++d; eq("after before_begin of a constant", d == c.begin(), true); auto e = c.cbefore_begin(); eq("cbefore_begin", e == c.before_begin(), true); eq("cbefore_begin is not the beginning", e == c.cbegin(), false); typename L::const_iterator x = l.before_begin(); eq("conversion to const_iterator", x == e, true); eq("next", x.next() == c.cbegin(), true); }
		int p = 0; for (auto i = l.begin(); i != l.end(); ++i, ++p) { int q = 0; for (auto j = c.begin(); j != c.end(); ++j, ++q) { eq("iterators ==", i == j, p == q); eq("iterators !=", i != j, p != q); } auto t = i; auto u = t++; eq("it++", u == i, true); eq("it++ advances", t == i.next(), true); }
		for (int x = 0; x < (int)m.size(); ++x) eq("is_linked within", w.it[m[x]]->is_linked(), x + 1 < (int)m.size());
	}
	for (int i = 0; i < w.n(); ++i) { if (w.where(i) < 0) eq("an item that was removed is unlinked", w.it[i]->is_linked(), false); eq("item value", w.it[i]->get(), w.val[i]); eq("*item", **w.it[i], w.val[i]); eq("item pointer", w.it[i]->get_pointer() == &w.it[i]->get(), true); eq("sprout::get", so::get<T>(*w.it[i]), w.val[i]); }
}
template<class T> std::vector<Act<T>> actions(int n) {
	typedef World<T> W; typedef typename W::L L; typedef typename W::Iter Iter; typedef typename W::CIter CIter; std::vector<Act<T>> a; auto add = [&](std::string const& s, std::function<bool(W&, bool)> f) { a.push_back(Act<T>{s, f}); };
	std::vector<I> lists; lists.push_back(I()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) lists.push_back(I{i, j}); for (int i = 0; i < n; ++i) lists.push_back(I{i}); if (n > 2) { lists.push_back(I{2, 0, 1}); lists.push_back(I{0, 1, 2}); }
	auto rb = [](W& w, I const& v) { return Range<T>{&w, v.data()}; }; auto re = [](W& w, I const& v) { return Range<T>{&w, v.data() + v.size()}; };
	for (int k = 0; k < 2; ++k) {
		std::string K = k ? "B." : "A.";
		for (int i = 0; i < n; ++i) add(K + "push_front(" + str(i) + ")", [=](W& w, bool) { if (w.where(i) >= 0) return false; w.l[k].push_front(*w.it[i]); w.m[k].insert(w.m[k].begin(), i); return true; });
		add(K + "pop_front", [=](W& w, bool) { if (w.m[k].empty()) return false; w.l[k].pop_front(); w.m[k].erase(w.m[k].begin()); return true; });
		add(K + "clear", [=](W& w, bool) { w.l[k].clear(); w.m[k].clear(); return true; });
		for (int i = 0; i < n; ++i) add(K + "unlink(" + str(i) + ")", [=](W& w, bool) { if (w.where(i) == 1 - k) return false; w.l[k].unlink(*w.it[i]); auto& m = w.m[k]; m.erase(std::remove(m.begin(), m.end(), i), m.end()); return true; });
		for (I const& v : lists) {
			add(K + "push_front" + str(v), [=](W& w, bool) { if (!w.free(v)) return false; w.l[k].push_front(rb(w, v), re(w, v)); w.m[k].insert(w.m[k].begin(), v.begin(), v.end()); return true; });
			add(K + "unlink" + str(v), [=](W& w, bool) { for (int i : v) if (w.where(i) == 1 - k) return false; w.l[k].unlink(rb(w, v), re(w, v)); auto& m = w.m[k]; for (int i : v) m.erase(std::remove(m.begin(), m.end(), i), m.end()); return true; });
			add(K + "assign" + str(v), [=](W& w, bool) { if (!w.free(v)) return false; w.l[k].assign(rb(w, v), re(w, v)); w.m[k] = v; return true; });
			add(K + "= list" + str(v), [=](W& w, bool) { if (!w.free(v)) return false; w.l[k] = L(rb(w, v), re(w, v)); w.m[k] = v; return true; });
			for (int p = 0; p <= n; ++p) add(K + "insert_after(" + str(p) + "," + str(v) + ")", [=](W& w, bool judge) { if (p > (int)w.m[k].size() || !w.free(v)) return false; Iter r = w.l[k].insert_after(w.pos(k, p), rb(w, v), re(w, v)); w.m[k].insert(w.m[k].begin() + p, v.begin(), v.end()); if (judge) eq("result of insert_after", r == w.pos(k, p + (int)v.size()), true); return true; });
		}
		for (int p = 0; p <= n; ++p) {
			for (int i = 0; i < n; ++i) add(K + "insert_after(" + str(p) + "," + str(i) + ")", [=](W& w, bool judge) { if (p > (int)w.m[k].size() || w.where(i) >= 0) return false; CIter q = w.pos(k, p); Iter r = w.l[k].insert_after(q, *w.it[i]); w.m[k].insert(w.m[k].begin() + p, i); if (judge) eq("result of insert_after", r == w.pos(k, p + 1), true); return true; });
			add(K + "erase_after(" + str(p) + ")", [=](W& w, bool judge) { if (p >= (int)w.m[k].size()) return false; Iter r = w.l[k].erase_after(w.pos(k, p)); w.m[k].erase(w.m[k].begin() + p); if (judge) eq("result of erase_after", r == w.pos(k, p + 1), true); return true; });
			for (int q = p + 1; q <= n + 1; ++q) add(K + "erase_after(" + str(p) + "," + str(q) + ")", [=](W& w, bool judge) { int s = (int)w.m[k].size(); if (p > s || q > s + 1) return false; Iter r = w.l[k].erase_after(w.pos(k, p), q == s + 1 ? CIter(w.l[k].end()) : CIter(w.pos(k, q))); w.m[k].erase(w.m[k].begin() + p, w.m[k].begin() + (q - 1)); if (judge) eq("result of erase_after of a range", r == w.pos(k, p + 1), true); return true; });
		}
		add(K + "= other", [=](W& w, bool) { w.l[k] = std::move(w.l[1 - k]); w.m[k] = w.m[1 - k]; w.m[1 - k].clear(); w.l[1 - k].clear(); return true; });
		add(K + "= moved copy", [=](W& w, bool) { L t(std::move(w.l[k])); w.l[k].clear(); L u; u.swap(t); w.l[k].swap(u); return true; });
	}
	add("swap", [](W& w, bool) { w.l[0].swap(w.l[1]); std::swap(w.m[0], w.m[1]); return true; }); add("A.swap(A)", [](W& w, bool) { w.l[0].swap(w.l[0]); return true; }); add("splice: B.push_front(unlinked front of A)", [](W& w, bool) { if (w.m[0].empty()) return false; int i = w.m[0][0]; w.l[0].unlink(*w.it[i]); w.m[0].erase(w.m[0].begin()); w.l[1].push_front(*w.it[i]); w.m[1].insert(w.m[1].begin(), i); return true; });
	return a;
}
// breadth-first to closure: a state is the history that leads to it, replayed from empty lists
template<class T> void closure(int n) {
	std::vector<Act<T>> acts = actions<T>(n); struct Node { I h; std::string key; }; std::vector<Node> q; std::set<std::string> seen; { World<T> w(n); q.push_back(Node{I(), w.key()}); seen.insert(w.key()); }
	for (std::size_t x = 0; x < q.size(); ++x) {
		I h = q[x].h; for (int a = 0; a < (int)acts.size(); ++a) {
			World<T> w(n); for (int i : h) acts[i].run(w, false); std::string path; 
			MC_STATE([&] { std::string s; for (int i : h) s += acts[i].name + "; "; return s + acts[a].name; }());
			if (!acts[a].run(w, true)) continue; trace(); verify(w); if (seen.insert(w.key()).second) { I g = h; g.push_back(a); q.push_back(Node{g, w.key()}); } } }
	bound("states of the lists", str((int)seen.size()) + " (all arrangements of " + str(n) + " items in two lists)");
}
MC_SECTION(v09_closure) { closure<int>(4); if (thorough()) closure<int>(5); }
MC_SECTION(v09_strings) { closure<std::string>(3); }
// every history up to a depth (states that only differ in what is stored in unlinked items are not merged)
static void histories(int n, int depth) {
	std::vector<Act<int>> acts = actions<int>(n); bound("histories", "every history of " + str(depth) + " operations over " + str(n) + " items");
	std::function<void(I&)> rec = [&](I& h) { for (int a = 0; a < (int)acts.size(); ++a) { World<int> w(n); bool good = true; for (int i : h) good = good && acts[i].run(w, false); MC_STATE([&] { std::string s; for (int i : h) s += acts[i].name + "; "; return s + acts[a].name; }()); if (!acts[a].run(w, true)) continue; trace(); verify(w); if ((int)h.size() + 1 < depth) { h.push_back(a); rec(h); h.pop_back(); } } };
	I h; rec(h);
}
#ifndef NO_HISTORIES
MC_SECTION(v09_histories) { histories(3, 3); histories(2, thorough() ? 5 : 4); }
#endif
// values of items
MC_SECTION(v09_values) {
	for (int n = 1; n <= 4; ++n) for (int i = 0; i < n; ++i) for (int how = 0; how < 6; ++how) {
		World<int> w(n); for (int k = n; k-- > 0;) { w.l[0].push_front(*w.it[k]); w.m[0].insert(w.m[0].begin(), k); } MC_STATE("writing item " + str(i) + " of " + str(n) + " by way " + str(how)); trace(); int v = 70; 
		if (how == 0) *w.it[i] = v; else if (how == 1) *w.it[i] = 70; else if (how == 2) w.it[i]->get() = 70; else if (how == 3) { auto p = w.pos(0, i + 1); *p = 70; } else if (how == 4) **w.it[i] = 70; else so::get<int>(*w.it[i]) = 70; w.val[i] = 70; verify(w); }
	for (int how = 0; how < 2; ++how) { MC_STATE("string items"); World<std::string> w(3); for (int k = 3; k-- > 0;) { w.l[0].push_front(*w.it[k]); w.m[0].insert(w.m[0].begin(), k); } std::string v = "a value that is long enough to be allocated"; if (how) *w.it[1] = v; else *w.it[1] = std::string(v); eq("the value assigned from is unchanged", v, std::string("a value that is long enough to be allocated")); w.val[1] = v; verify(w); w.it[2]->get_pointer()->append("!"); w.val[2] += "!"; verify(w); }
	MC_STATE("default item"); so::forward_clist<int>::item x; eq("default item", x.get(), 0); eq("default item is not linked", x.is_linked(), false); so::forward_clist<int>::iterator i, j; eq("default iterators are equal", i == j, true); eq("max_size", so::forward_clist<int>().max_size() > 1000u, true);
}
// items that are still linked in another list: the list they are put into holds exactly them and its previous items (what the other list shows is unspecified)
MC_SECTION(v09_linked_elsewhere) {
	typedef World<int> W; typedef W::L L; int n = 5; bound("linked elsewhere", "every split of " + str(n) + " items in two lists x every sequence of the items of the second x every way of putting them into the first at every position");
	auto same = [](const char* op, W& w, L& l, I const& m) { I want, got; for (int i : m) want.push_back(w.val[i]); for (auto i = l.begin(); i != l.end() && (int)got.size() < 12; ++i) got.push_back(*i); eq(op, got, want); };
	for (int a = 0; a <= n; ++a) for (int k = 1; k <= n - a; ++k) {
		std::vector<I> seqs; I cur; std::function<void()> gen = [&] { if ((int)cur.size() == k) { seqs.push_back(cur); return; } for (int i = a; i < n; ++i) if (std::find(cur.begin(), cur.end(), i) == cur.end()) { cur.push_back(i); gen(); cur.pop_back(); } }; gen();
		for (I const& v : seqs) for (int how = 0; how < 3 + a + 1; ++how) {
			W w(n); for (int i = n; i-- > 0;) { int l = i < a ? 0 : 1; w.l[l].push_front(*w.it[i]); } I m; for (int i = 0; i < a; ++i) m.push_back(i);
			MC_STATE("first list " + str(m) + ", items " + str(v) + " of the second list of " + str(n - a) + ", way " + str(how)); trace(); Range<int> f = {&w, v.data()}, l = {&w, v.data() + k};
			if (how == 0) { w.l[0].push_front(f, l); m.insert(m.begin(), v.begin(), v.end()); same("push_front of items linked elsewhere", w, w.l[0], m); }
			else if (how == 1) { w.l[0].assign(f, l); same("assign of items linked elsewhere", w, w.l[0], v); }
			else if (how == 2) { L t(f, l); same("construction from items linked elsewhere", w, t, v); same("the list not involved", w, w.l[0], m); }
			else { int p = how - 3; auto r = w.l[0].insert_after(w.pos(0, p), f, l); m.insert(m.begin() + p, v.begin(), v.end()); same("insert_after of items linked elsewhere", w, w.l[0], m); eq("result of insert_after of items linked elsewhere", r == w.pos(0, p + k), true); }
			if (k == 1) { W x(n); for (int i = n; i-- > 0;) x.l[i < a ? 0 : 1].push_front(*x.it[i]); I y; for (int i = 0; i < a; ++i) y.push_back(i); if (how == 0) { x.l[0].push_front(*x.it[v[0]]); y.insert(y.begin(), v[0]); } else if (how >= 3) { x.l[0].insert_after(x.pos(0, how - 3), *x.it[v[0]]); y.insert(y.begin() + (how - 3), v[0]); } same("one item linked elsewhere", x, x.l[0], y); }
		}
	}
}
