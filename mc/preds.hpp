#ifndef MC_PREDS_HPP
#define MC_PREDS_HPP
// Function objects used as the operations of the algorithms under check. All are usable in constant expressions.
namespace mc {
	struct Less { template<class A, class B> constexpr bool operator()(A const& a, B const& b) const { return a < b; } };
	struct Greater { template<class A, class B> constexpr bool operator()(A const& a, B const& b) const { return b < a; } };
	struct Leq { template<class A, class B> constexpr bool operator()(A const& a, B const& b) const { return !(b < a); } };
	struct Eq { template<class A, class B> constexpr bool operator()(A const& a, B const& b) const { return a == b; } };
	struct Par { constexpr bool operator()(int a, int b) const { return (a & 1) == (b & 1); } };   // equivalence by parity
	struct ParLess { constexpr bool operator()(int a, int b) const { return (a & 1) < (b & 1); } }; // a weak order with ties
	struct Even { constexpr bool operator()(int a) const { return (a & 1) == 0; } };
	struct Is { int v; constexpr explicit Is(int v_) : v(v_) {} template<class A> constexpr bool operator()(A const& a) const { return a == v; } };
	struct Ge { int v; constexpr explicit Ge(int v_) : v(v_) {} template<class A> constexpr bool operator()(A const& a) const { return !(a < v); } };
	struct Lt { int v; constexpr explicit Lt(int v_) : v(v_) {} template<class A> constexpr bool operator()(A const& a) const { return a < v; } };
	struct No { template<class A> constexpr bool operator()(A const&) const { return false; } };
	struct Yes { template<class A> constexpr bool operator()(A const&) const { return true; } };
	// an element with an identity that the ordering does not see
	struct KV {
		int k, id;
		constexpr KV() : k(0), id(0) {}
		constexpr KV(int k_, int i_) : k(k_), id(i_) {}
		friend constexpr bool operator==(KV const& a, KV const& b) { return a.k == b.k && a.id == b.id; }
		friend constexpr bool operator!=(KV const& a, KV const& b) { return !(a == b); }
		friend constexpr bool operator<(KV const& a, KV const& b) { return a.k < b.k; }
		friend constexpr bool operator>(KV const& a, KV const& b) { return b < a; }
	};
	inline std::string str(KV const& v) { return std::to_string(v.k) + "#" + std::to_string(v.id); }
	struct KeyEq { constexpr bool operator()(KV const& a, KV const& b) const { return a.k == b.k; } };
	struct KeyGreater { constexpr bool operator()(KV const& a, KV const& b) const { return b.k < a.k; } };
	struct KeyIs { int v; constexpr explicit KeyIs(int v_) : v(v_) {} constexpr bool operator()(KV const& a) const { return a.k == v; } };
	// a copy of op that records every argument pair it was called with can be added per harness

	// sequences: constant `base` of length n with up to two cells changed to d1/d2
	template<class F> inline void deviations(int n, int base, int alphabet, int ndev, F const& f) {
		std::vector<int> v(n, base);
		f(v);
		if (ndev < 1) return;
		for (int i = 0; i < n; ++i) for (int a = 0; a < alphabet; ++a) if (a != base) {
			v[i] = a; f(v);
			if (ndev >= 2) for (int j = i + 1; j < n; ++j) for (int b = 0; b < alphabet; ++b) if (b != base) { v[j] = b; f(v); v[j] = base; }
			v[i] = base;
		}
	}
}
#endif
