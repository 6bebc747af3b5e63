// The iterator requirements of one [begin, end) pair with a known sequence of values, checked at every position,
// every pair of positions and every distance.
#ifndef MC_LAWS_HPP
#define MC_LAWS_HPP
#include "iters.hpp"
#include <sprout/iterator/operation.hpp>
#include <sprout/utility/swap.hpp>
namespace mc {
	template<class I> auto member_swap(I& a, I& b, int) -> decltype(a.swap(b)) { a.swap(b); }
	template<class I> void member_swap(I& a, I& b, long) { std::swap(a, b); }
	enum Laws { ALL = 0, FORWARD_ONLY = 1 };
	struct Ident { template<class T> T const& operator()(T const& x) const { return x; } };
	struct LawNames {
		const char *len, *val, *eqv, *post, *nxt, *nxtn, *dist, *dec, *pdec, *prv, *prvn, *add, *sub, *adda, *suba, *idx, *diff, *lt, *swp, *adv;
		explicit LawNames(const char* n) {
			std::string s(n);
			len = intern(s + ": number of elements"); val = intern(s + ": value"); eqv = intern(s + ": == and != of two positions"); post = intern(s + ": it++");
			nxt = intern(s + ": next(it)"); nxtn = intern(s + ": next(it, n)"); dist = intern(s + ": distance"); dec = intern(s + ": --it"); pdec = intern(s + ": it--");
			prv = intern(s + ": prev(it)"); prvn = intern(s + ": prev(it, n)"); add = intern(s + ": it + n"); sub = intern(s + ": it - n"); adda = intern(s + ": it += n");
			suba = intern(s + ": it -= n"); idx = intern(s + ": it[n]"); diff = intern(s + ": it - it"); lt = intern(s + ": ordering of two positions"); swp = intern(s + ": assignment and swap"); adv = intern(s + ": advance");
		}
		static LawNames const& of(const char* n) { static std::map<const char*, LawNames> m; auto i = m.find(n); return i != m.end() ? i->second : m.insert(std::make_pair(n, LawNames(n))).first->second; }
	};
	template<class I> std::string at(std::vector<I> const&, size_t a, size_t b) { return "at positions " + std::to_string(a) + ", " + std::to_string(b); }
	template<class It, class V, class G> void laws_ra(LawNames const& N, std::vector<It> const& p, std::vector<V> const& want, G g, std::random_access_iterator_tag) {
		size_t n = want.size();
		for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j) {
			std::ptrdiff_t d = (std::ptrdiff_t)j - (std::ptrdiff_t)i;
			auto w = [&] { return at(p, i, j); };
			It a = p[i] + d; eqd(N.add, a == p[j], true, w);
			It a2 = d + p[i]; eqd(N.add, a2 == p[j], true, w);
			It s = p[i] - (-d); eqd(N.sub, s == p[j], true, w);
			if (j < n) { eqd(N.add, V(g(*a)), want[j], w); eqd(N.sub, V(g(*s)), want[j], w); eqd(N.idx, V(g(p[i][d])), want[j], w); }
			It x = p[i]; x += d; eqd(N.adda, x == p[j], true, w);
			It y = p[i]; y -= -d; eqd(N.suba, y == p[j], true, w);
			if (j < n) { eqd(N.adda, V(g(*x)), want[j], w); eqd(N.suba, V(g(*y)), want[j], w); }
			// a computed position goes on working: walk from it to the end and back
			size_t k = j; for (It q = a; q != p[n] && k <= n; ++q, ++k) if (k < n) eqd(N.add, V(g(*q)), want[k], w);
			eqd(N.add, k, n, w);
			It q = a; for (size_t r = j; r-- > 0;) { --q; eqd(N.add, V(g(*q)), want[r], w); }
			eqd(N.diff, (std::ptrdiff_t)(p[j] - p[i]), d, w);
			eqd(N.diff, (std::ptrdiff_t)(a - p[i]), d, w);
			eqd(N.lt, (p[i] < p[j]), i < j, w); eqd(N.lt, (p[i] > p[j]), i > j, w); eqd(N.lt, (p[i] <= p[j]), i <= j, w); eqd(N.lt, (p[i] >= p[j]), i >= j, w);
		}
	}
	template<class It, class V, class G> void laws_ra(LawNames const&, std::vector<It> const&, std::vector<V> const&, G, std::input_iterator_tag) {}
	template<class It, class V, class G> void laws_bi(LawNames const& N, std::vector<It> const& p, std::vector<V> const& want, G g, std::bidirectional_iterator_tag) {
		size_t n = want.size();
		for (size_t s = 0; s <= n; ++s) {
			It i = p[s];
			for (size_t k = s; k-- > 0;) {
				auto w = [&] { return "from position " + std::to_string(s) + " back to " + std::to_string(k); };
				It j = i; It r = j--; eqd(N.pdec, r == p[k + 1], true, w); eqd(N.pdec, j == p[k], true, w); eqd(N.pdec, V(g(*j)), want[k], w);
				It q = sprout::prev(i); eqd(N.prv, q == p[k], true, w); eqd(N.prv, V(g(*q)), want[k], w);
				It& x = --i; eqd(N.dec, &x == &i && i == p[k], true, w); eqd(N.dec, V(g(*i)), want[k], w);
				It z = sprout::prev(p[s], (std::ptrdiff_t)(s - k)); eqd(N.prvn, z == p[k], true, w); eqd(N.prvn, V(g(*z)), want[k], w);
				It t = p[s]; sprout::advance(t, -(std::ptrdiff_t)(s - k)); eqd(N.adv, t == p[k], true, w);
			}
		}
	}
	template<class It, class V, class G> void laws_bi(LawNames const&, std::vector<It> const&, std::vector<V> const&, G, std::input_iterator_tag) {}
	template<class It, class V, class G = Ident> void laws(const char* name, It b, It e, std::vector<V> const& want, int flags = ALL, G g = G()) {
		typedef typename std::iterator_traits<It>::iterator_category cat;
		LawNames const& N = LawNames::of(name);
		size_t n = want.size();
		std::vector<It> p; It i = b; size_t k = 0;
		p.push_back(i);
		while (i != e && k <= n) {
			auto w = [&] { return "at position " + std::to_string(k); };
			if (k < n) eqd(N.val, V(g(*i)), want[k], w);
			It j = i; It r = j++; eqd(N.post, r == i, true, w); if (k < n) eqd(N.post, V(g(*r)), want[k], w);
			It q = sprout::next(i);
			It& x = ++i; eqd(N.post, &x == &i && j == i, true, w);
			eqd(N.nxt, q == i, true, w); if (k + 1 < n) eqd(N.nxt, V(g(*q)), want[k + 1], w);
			++k; p.push_back(i);
		}
		if (!eq(N.len, k, n)) return;
		for (size_t a = 0; a <= n; ++a) for (size_t c = 0; c <= n; ++c) {
			auto w = [&] { return at(p, a, c); };
			eqd(N.eqv, p[a] == p[c], a == c, w); eqd(N.eqv, p[a] != p[c], a != c, w);
			It u = p[a], v = p[c]; sprout::swap(u, v); eqd(N.swp, u == p[c] && v == p[a], true, w);
			member_swap(u, v, 0); eqd(N.swp, u == p[a] && v == p[c], true, w);
			u = v; eqd(N.swp, u == p[c], true, w);
			if (c < n) eqd(N.swp, V(g(*u)), want[c], w);
			if (c >= a) {
				It q = sprout::next(p[a], (std::ptrdiff_t)(c - a)); eqd(N.nxtn, q == p[c], true, w); if (c < n) eqd(N.nxtn, V(g(*q)), want[c], w);
				eqd(N.dist, (std::ptrdiff_t)sprout::distance(p[a], p[c]), (std::ptrdiff_t)(c - a), w);
				It t = p[a]; sprout::advance(t, (std::ptrdiff_t)(c - a)); eqd(N.adv, t == p[c], true, w); if (c < n) eqd(N.adv, V(g(*t)), want[c], w);
			}
		}
		eqd(N.dist, (std::ptrdiff_t)sprout::distance(b, e), (std::ptrdiff_t)n, [] { return "begin to end"; });
		if (flags & FORWARD_ONLY) return;
		// the end as it was given, and the end as it was reached
		laws_bi(N, p, want, g, cat()); laws_ra(N, p, want, g, cat());
		p[n] = e;
		laws_bi(N, p, want, g, cat()); laws_ra(N, p, want, g, cat());
	}
}
#endif
