// Checked iterators of every category over a window of memory; any step or access outside the window is reported.
#ifndef MC_ITERS_HPP
#define MC_ITERS_HPP
#include "mc.hpp"
#include <iterator>
namespace mc {
	struct Fwd : std::forward_iterator_tag {};
	struct Ptr {};                                    // a raw pointer
	struct NLFwd {}; struct NLBidi {}; struct NLRa {}; // the same categories, iterator is not a literal type
	typedef std::forward_iterator_tag fwd;
	typedef std::bidirectional_iterator_tag bidi;
	typedef std::random_access_iterator_tag ra;

	template<bool> struct MaybeDtor {};
	template<> struct MaybeDtor<true> { ~MaybeDtor() {} MaybeDtor() {} MaybeDtor(MaybeDtor const&) {} MaybeDtor& operator=(MaybeDtor const&) { return *this; } };

	template<class T, class Tag, bool NonLit = false> struct It : MaybeDtor<NonLit> {
		typedef Tag iterator_category;
		typedef typename std::remove_const<T>::type value_type;
		typedef std::ptrdiff_t difference_type;
		typedef T* pointer;
		typedef T& reference;
		T* p; T* lo; T* hi;
		constexpr It() : p(), lo(), hi() {}
		constexpr It(T* p_, T* l_, T* h_) : p(p_), lo(l_), hi(h_) {}
		static T& dummy() { static value_type d[1]; return d[0]; }
		T& operator*() const {
			if (p < lo || p >= hi) { report("iterator: access outside the range", "offset " + std::to_string(p - lo) + " of " + std::to_string(hi - lo)); return dummy(); }
			return *p;
		}
		T* operator->() const { return &**this; }
		void stepped() const { if (p < lo || p > hi) report("iterator: moved outside the range", "offset " + std::to_string(p - lo) + " of " + std::to_string(hi - lo)); }
		It& operator++() { ++p; stepped(); return *this; }
		It operator++(int) { It r(*this); ++*this; return r; }
		It& operator--() { --p; stepped(); return *this; }
		It operator--(int) { It r(*this); --*this; return r; }
		It& operator+=(difference_type n) { p += n; stepped(); return *this; }
		It& operator-=(difference_type n) { p -= n; stepped(); return *this; }
		It operator+(difference_type n) const { It r(*this); r += n; return r; }
		It operator-(difference_type n) const { It r(*this); r -= n; return r; }
		friend It operator+(difference_type n, It const& a) { return a + n; }
		difference_type operator-(It const& o) const { chk(o); return p - o.p; }
		T& operator[](difference_type n) const { return *(*this + n); }
		void chk(It const& o) const { if (lo != o.lo) report("iterator: compared across ranges", "different ranges"); }
		friend bool operator==(It const& a, It const& b) { a.chk(b); return a.p == b.p; }
		friend bool operator!=(It const& a, It const& b) { a.chk(b); return a.p != b.p; }
		friend bool operator<(It const& a, It const& b) { a.chk(b); return a.p < b.p; }
		friend bool operator>(It const& a, It const& b) { a.chk(b); return a.p > b.p; }
		friend bool operator<=(It const& a, It const& b) { a.chk(b); return a.p <= b.p; }
		friend bool operator>=(It const& a, It const& b) { a.chk(b); return a.p >= b.p; }
		friend void swap(It& a, It& b) { It t(a); a = b; b = t; }
	};
	template<class T, class Tag> struct mk { typedef It<T, Tag> type; static type at(T* b, T* e, T* p) { return type(p, b, e); } static T* raw(type i) { return i.p; } };
	template<class T> struct mk<T, Ptr> { typedef T* type; static type at(T*, T*, T* p) { return p; } static T* raw(type i) { return i; } };
	template<class T> struct mk<T, NLFwd> { typedef It<T, fwd, true> type; static type at(T* b, T* e, T* p) { return type(p, b, e); } static T* raw(type i) { return i.p; } };
	template<class T> struct mk<T, NLBidi> { typedef It<T, bidi, true> type; static type at(T* b, T* e, T* p) { return type(p, b, e); } static T* raw(type i) { return i.p; } };
	template<class T> struct mk<T, NLRa> { typedef It<T, ra, true> type; static type at(T* b, T* e, T* p) { return type(p, b, e); } static T* raw(type i) { return i.p; } };
	template<class Tag> struct tagname;
	template<> struct tagname<fwd> { static const char* n() { return "forward"; } };
	template<> struct tagname<bidi> { static const char* n() { return "bidirectional"; } };
	template<> struct tagname<ra> { static const char* n() { return "random-access"; } };
	template<> struct tagname<Ptr> { static const char* n() { return "pointer"; } };
	template<> struct tagname<NLFwd> { static const char* n() { return "forward(non-literal)"; } };
	template<> struct tagname<NLBidi> { static const char* n() { return "bidirectional(non-literal)"; } };
	template<> struct tagname<NLRa> { static const char* n() { return "random-access(non-literal)"; } };

	// a buffer with guard cells on both sides
	template<class T> struct Buf {
		static const int G = 4;
		std::vector<T> b, orig; int n;
		Buf() : n(0) {}
		template<class V> Buf(V const& v, T guard) { init(v, guard); }
		template<class V> void init(V const& v, T guard) {
			n = (int)v.size();
			b.assign(n + 2 * G, guard);
			for (int i = 0; i < n; ++i) b[G + i] = T(v[i]);
			orig = b;
		}
		T* lo() { return b.data() + G; }
		T* hi() { return b.data() + G + n; }
		template<class Tag> typename mk<T, Tag>::type it(int i) { return mk<T, Tag>::at(lo(), hi(), lo() + i); }
		template<class Tag> typename mk<T const, Tag>::type cit(int i) { return mk<T const, Tag>::at(lo(), hi(), lo() + i); }
		std::vector<T> get() const { return std::vector<T>(b.begin() + G, b.begin() + G + n); }
		bool guards() const { for (int i = 0; i < G; ++i) if (!(b[i] == orig[i]) || !(b[G + n + i] == orig[G + n + i])) return false; return true; }
		bool same_outside(int f, int l) const { // nothing changed outside [f,l)
			for (int i = 0; i < (int)b.size(); ++i) if ((i < G + f || i >= G + l) && !(b[i] == orig[i])) return false;
			return true;
		}
		bool unchanged() const { return b == orig; }
		template<class I> int pos(I i) { return (int)(raw(i) - lo()); }
		template<class P> static T const* raw(P* p) { return p; }
		template<class U, class Tag, bool N> static T const* raw(It<U, Tag, N> const& i) { return i.p; }
	};
}
#endif
