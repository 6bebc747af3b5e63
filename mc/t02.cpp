// T02: type traits agree with the standard traits, on every type of a closed universe.
#include "mc.hpp"
#include <sprout/type_traits.hpp>
#include <sprout/complex.hpp>
#include <type_traits>
#include <functional>
#include <complex>
using namespace mc; typedef std::string S;
#ifndef PART
#define PART 0
#endif
enum En { e0 }; enum class Ec : short { a }; struct Empty {}; struct Agg { int a; char b; }; struct Priv { Priv(int); private: int x; int y; }; struct Virt { virtual void f() {} }; struct VDtor { virtual ~VDtor() {} }; struct Abst { virtual void f() = 0; }; struct Fin final { int x; }; union Un { int a; float b; };
struct NoDef { NoDef(int) noexcept; }; struct NoCopy { NoCopy() {} NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const&) = delete; }; struct MoveOnly { MoveOnly() noexcept; MoveOnly(MoveOnly&&) noexcept; MoveOnly& operator=(MoveOnly&&); }; struct Throwy { Throwy() noexcept(false); Throwy(Throwy const&) noexcept(false); Throwy& operator=(Throwy const&) noexcept(false); ~Throwy() noexcept(false) {} }; struct NoDtor { ~NoDtor() = delete; }; struct Derived : Agg { }; struct PrivBase : private Empty {}; struct Conv { operator int() const; explicit operator bool() const; }; struct FromInt { FromInt(int); }; struct ExplInt { explicit ExplInt(int); };
typedef int Fn(int); typedef void Fv(); typedef int Fc() const; typedef int Agg::*Pm; typedef int (Agg::*Pf)(int); typedef int (Agg::*Pfc)() const; struct Call { int operator()(int) noexcept; long operator()(int, char) const; }; struct Lam { template<class T> T operator()(T t) const { return t; } };
template<class... T> struct L {};
template<class T> S nm() { S s = __PRETTY_FUNCTION__; std::size_t i = s.find("T = "); return s.substr(i + 4, s.find_first_of(";]", i) == S::npos ? S::npos : s.find(';', i) == S::npos ? s.rfind(']') - i - 4 : s.find(';', i) - i - 4); }
typedef L<void, bool, char, signed char, unsigned char, wchar_t, char16_t, char32_t, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double, std::nullptr_t, En, Ec, Empty, Agg, Priv, Virt, VDtor, Abst, Fin, Un, NoDef, NoCopy, MoveOnly, Throwy, NoDtor, Derived, PrivBase, Conv, Fn, Fv, Fc, Pm, Pf, Pfc, Call, S> Base;
typedef L<void, int, unsigned long, double, std::nullptr_t, Ec, Agg, Abst, Un, NoDef, Throwy, NoDtor, Fn, Fc, Pf> Deep;
template<class T> struct CanElem : std::integral_constant<bool, !std::is_void<T>::value && !std::is_reference<T>::value && !std::is_function<T>::value && !std::is_abstract<T>::value && !(std::is_array<T>::value && std::extent<T>::value == 0)> {};
template<class T, int K> struct Con; template<class T> struct Con<T, 0> { typedef T const type; }; template<class T> struct Con<T, 1> { typedef T volatile type; }; template<class T> struct Con<T, 2> { typedef T const volatile type; }; template<class T> struct Con<T, 3> : std::add_pointer<T> {}; template<class T> struct Con<T, 4> : std::add_lvalue_reference<T> {}; template<class T> struct Con<T, 5> : std::add_rvalue_reference<T> {};
template<class T, bool = CanElem<T>::value> struct Arr { typedef T fixed; typedef T open; }; template<class T> struct Arr<T, true> { typedef T fixed[3]; typedef T open[]; }; template<class T> struct Con<T, 6> { typedef typename Arr<T>::fixed type; }; template<class T> struct Con<T, 7> { typedef typename Arr<T>::open type; };
template<class T, bool = std::is_void<T>::value || std::is_reference<T>::value> struct Mem { typedef T type; }; template<class T> struct Mem<T, false> { typedef T Agg::*type; }; template<class T> struct Con<T, 8> : Mem<T> {};
template<template<class> class F, class T> void deeper(std::integral_constant<int, 0>) {}
template<template<class> class F, class T, int D> void deep(std::integral_constant<int, D>); 
template<template<class> class F, class T> void deep(std::integral_constant<int, 0>) { F<T>::run(); }
template<template<class> class F, class T, int D> void deep(std::integral_constant<int, D>) { F<T>::run(); std::integral_constant<int, D - 1> d; deep<F, typename Con<T, 0>::type>(d); deep<F, typename Con<T, 1>::type>(d); deep<F, typename Con<T, 2>::type>(d); deep<F, typename Con<T, 3>::type>(d); deep<F, typename Con<T, 4>::type>(d); deep<F, typename Con<T, 5>::type>(d); deep<F, typename Con<T, 6>::type>(d); deep<F, typename Con<T, 7>::type>(d); deep<F, typename Con<T, 8>::type>(d); }
template<template<class> class F, int D, class... T> void over(L<T...>) { int d[] = {(deep<F, T>(std::integral_constant<int, D>()), 0)...}; (void)d; }
#define U(TR) eq(#TR, (long)sprout::TR<T>::value, (long)std::TR<T>::value);
#define UX(TR, ...) eq(#TR, bool(sprout::TR<T>::value), bool(__VA_ARGS__));
#define Y(TR) eq(#TR, (std::is_same<typename sprout::TR<T>::type, typename std::TR<T>::type>::value), true);
#define YX(TR, ...) eq(#TR, (std::is_same<typename sprout::TR<T>::type, __VA_ARGS__>::value), true);
template<class T> struct Cats { static void run() { MC_STATE(nm<T>()); trace();
#if PART == 0
	U(is_void) U(is_null_pointer) U(is_integral) U(is_floating_point) U(is_array) U(is_pointer) U(is_lvalue_reference) U(is_rvalue_reference) U(is_member_object_pointer) U(is_member_function_pointer) U(is_enum) U(is_union) U(is_class) U(is_function) U(is_reference) U(is_arithmetic) U(is_fundamental) U(is_object) U(is_scalar) U(is_compound) U(is_member_pointer) U(is_const) U(is_volatile) U(is_signed) U(is_unsigned) U(rank) U(extent)
	typedef typename std::remove_cv<T>::type N; UX(is_sint, std::is_integral<T>::value && std::is_signed<T>::value) UX(is_uint, std::is_integral<T>::value && std::is_unsigned<T>::value) UX(is_char_type, std::is_same<N, char>::value || std::is_same<N, wchar_t>::value || std::is_same<N, char16_t>::value || std::is_same<N, char32_t>::value) UX(is_const_unqualified, !std::is_const<T>::value) UX(is_volatile_unqualified, !std::is_volatile<T>::value) UX(is_cv_unqualified, !std::is_const<T>::value && !std::is_volatile<T>::value)
	eq("extent 1", sprout::extent<T, 1>::value, std::extent<T, 1>::value);
#elif PART == 1
	U(is_trivial) U(is_trivially_copyable) U(is_standard_layout) U(is_pod) U(is_literal_type) U(is_empty) U(is_polymorphic) U(is_abstract) U(has_virtual_destructor) U(is_default_constructible) U(is_copy_constructible) U(is_move_constructible) U(is_copy_assignable) U(is_move_assignable) U(is_destructible) U(is_trivially_default_constructible) U(is_trivially_copy_constructible) U(is_trivially_move_constructible) U(is_trivially_copy_assignable) U(is_trivially_move_assignable) U(is_trivially_destructible) U(is_nothrow_default_constructible) U(is_nothrow_copy_constructible) U(is_nothrow_move_constructible) U(is_nothrow_copy_assignable) U(is_nothrow_move_assignable) U(is_nothrow_destructible)
#if __cplusplus >= 201402L
	U(is_final)
#endif
#if __cplusplus >= 201703L
	U(is_aggregate) U(is_swappable) U(is_nothrow_swappable) U(has_unique_object_representations)
#endif
#else
	Y(remove_const) Y(remove_volatile) Y(remove_cv) Y(add_const) Y(add_volatile) Y(add_cv) Y(remove_reference) Y(add_lvalue_reference) Y(add_rvalue_reference) Y(remove_extent) Y(remove_all_extents) Y(remove_pointer) Y(add_pointer) Y(decay) YX(remove_cvref, typename std::remove_cv<typename std::remove_reference<T>::type>::type) YX(identity, T)
	typedef typename std::remove_cv<T>::type N; typedef typename std::conditional<std::is_array<T>::value, T, N>::type Sh; YX(remove_shallow_cv, Sh) YX(remove_shallow_const, typename std::conditional<std::is_array<T>::value, T, typename std::remove_const<T>::type>::type) YX(remove_shallow_volatile, typename std::conditional<std::is_array<T>::value, T, typename std::remove_volatile<T>::type>::type) { typedef typename std::remove_reference<T>::type R; YX(remove_shallow_cvref, typename std::conditional<std::is_array<R>::value, R, typename std::remove_cv<R>::type>::type) }
	eq("copy_const", std::is_same<typename sprout::copy_const<long, T>::type, typename std::conditional<std::is_const<T>::value && !std::is_array<T>::value || std::is_const<T>::value, long const, long>::type>::value, true); eq("copy_volatile", std::is_same<typename sprout::copy_volatile<long, T>::type, typename std::conditional<std::is_volatile<T>::value, long volatile, long>::type>::value, true); typedef typename std::conditional<std::is_const<T>::value, long const, long>::type C1; eq("copy_cv", std::is_same<typename sprout::copy_cv<long, T>::type, typename std::conditional<std::is_volatile<T>::value, C1 volatile, C1>::type>::value, true);
	sgn(std::integral_constant<bool, std::is_integral<T>::value && !std::is_same<N, bool>::value || std::is_enum<T>::value>()); und(std::is_enum<T>()); sized(std::integral_constant<bool, std::is_object<T>::value && !(std::is_array<T>::value && std::extent<T>::value == 0)>()); } static void sgn(std::true_type) { Y(make_signed) Y(make_unsigned) } static void sgn(std::false_type) {} static void und(std::true_type) { Y(underlying_type) } static void und(std::false_type) {} static void sized(std::true_type) { U(alignment_of) } static void sized(std::false_type) {
#endif
	} };
#if PART < 3
MC_SECTION(all_types) { over<Cats, 1>(Base()); over<Cats, 2>(Deep()); }
#else
typedef L<void, bool, char, int, int const, int&, int const&, int&&, unsigned char, long, double, float, std::nullptr_t, int*, int const*, void*, En, Ec, Empty, Agg, Agg&, Agg const&, Agg*, Derived, Derived&, Derived*, PrivBase, Virt, Abst, NoDef, NoCopy, NoCopy&, MoveOnly, MoveOnly&, Throwy, Throwy&, NoDtor, Conv, FromInt, ExplInt, Fn, Fn&, Fn*, int[3], int(&)[3], int[], Pm, S, S const&, char const*> Pairs;
template<class Void, class... A1> struct StdCommon { static S get() { return "none"; } }; template<class... A1> struct StdCommon<typename std::conditional<true, void, typename std::common_type<A1...>::type>::type, A1...> { static S get() { return nm<typename std::common_type<A1...>::type>(); } };
template<class Void, class... A1> struct SprCommon { static S get() { return "none"; } }; template<class... A1> struct SprCommon<typename std::conditional<true, void, typename sprout::common_type<A1...>::type>::type, A1...> { static S get() { return nm<typename sprout::common_type<A1...>::type>(); } };
#define B2(TR) eq(#TR, bool(sprout::TR<T, V>::value), bool(std::TR<T, V>::value));
template<class T> struct Row { template<class V> struct Col { static void run() { MC_STATE(nm<T>() + " / " + nm<V>()); trace(); B2(is_same) B2(is_base_of) B2(is_convertible) B2(is_assignable) B2(is_trivially_assignable) B2(is_nothrow_assignable) B2(is_constructible) B2(is_trivially_constructible) B2(is_nothrow_constructible)
#if __cplusplus >= 201703L
	B2(is_swappable_with) B2(is_nothrow_swappable_with)
#endif
	if (std::is_copy_constructible<typename std::decay<T>::type>::value || !std::is_same<typename std::decay<T>::type, typename std::decay<V>::type>::value || std::is_same<T, V>::value) eq("common_type", SprCommon<void, T, V>::get(), StdCommon<void, T, V>::get()); cc(std::integral_constant<bool, !std::is_array<T>::value && !std::is_function<T>::value && std::is_destructible<T>::value && !std::is_void<T>::value && !std::is_void<V>::value>()); } static void cc(std::true_type) { eq("is_convert_constructible", bool(sprout::is_convert_constructible<T, V>::value), bool(std::is_convertible<V, T>::value)); } static void cc(std::false_type) {} };
	static void run() { over<Col, 0>(Pairs()); } };
#if PART == 3
MC_SECTION(pairs) { over<Row, 0>(Pairs()); }
#else
// operators: the trait against the expression written out
template<class T> T val();
#define DET2(NAME, OP) template<class T1, class T2, class = void> struct Det_##NAME : std::false_type { typedef void type; }; template<class T1, class T2> struct Det_##NAME<T1, T2, decltype(void(val<T1>() OP val<T2>()))> : std::true_type { typedef decltype(val<T1>() OP val<T2>()) type; };
#define DET1(NAME, PRE, POST) template<class T1, class = void> struct Det_##NAME : std::false_type { typedef void type; }; template<class T1> struct Det_##NAME<T1, decltype(void(PRE val<T1>() POST))> : std::true_type { typedef decltype(PRE val<T1>() POST) type; };
#define ALL2(M) M(plus, +) M(minus, -) M(multiplies, *) M(divides, /) M(modulus, %) M(equal_to, ==) M(not_equal_to, !=) M(less, <) M(greater, >) M(less_equal, <=) M(greater_equal, >=) M(logical_and, &&) M(logical_or, ||) M(bit_and, &) M(bit_or, |) M(bit_xor, ^) M(shift_left, <<) M(shift_right, >>) M(left_shift, <<) M(right_shift, >>) M(assign, =) M(plus_assign, +=) M(minus_assign, -=) M(multiplies_assign, *=) M(divides_assign, /=) M(modulus_assign, %=) M(bit_and_assign, &=) M(bit_or_assign, |=) M(bit_xor_assign, ^=) M(shift_left_assign, <<=) M(shift_right_assign, >>=) M(left_shift_assign, <<=) M(right_shift_assign, >>=)
#define ALL1(M) M(negate, -, ) M(posite, +, ) M(unary_minus, -, ) M(unary_plus, +, ) M(bit_not, ~, ) M(complement, ~, ) M(logical_not, !, ) M(pre_increment, ++, ) M(pre_decrement, --, ) M(post_increment, , ++) M(post_decrement, , --) M(dereference, *, ) M(address_of, &, )
ALL2(DET2) ALL1(DET1)
struct Half1 { int operator+(long) const; Half1& operator+=(char); bool operator<(Half1 const&) const; void operator~() const; Half1& operator++(); int operator*() const; int operator[](int) const; bool operator!() &; }; struct Half2 { friend Half2 operator-(Half2&, int); friend bool operator==(Half2, Half2); friend int operator<<(int, Half2 const&); Half2 operator++(int); Half2* operator&() const; };
#define CK2(NAME, OP) eq("has_" #NAME, bool(sprout::has_##NAME<T, V>::value), bool(Det_##NAME<T, V>::value)); { typedef typename Det_##NAME<T, V>::type R; eq("has_" #NAME " result", bool(sprout::has_##NAME<T, V, int>::value), Det_##NAME<T, V>::value && std::is_convertible<R, int>::value); }
#define CK1(NAME, PRE, POST) eq("has_" #NAME, bool(sprout::has_##NAME<T>::value), bool(Det_##NAME<T>::value)); { typedef typename Det_##NAME<T>::type R; eq("has_" #NAME " result", bool(sprout::has_##NAME<T, int>::value), Det_##NAME<T>::value && std::is_convertible<R, int>::value); }
typedef L<int, int&, double, double const&, bool, char*, void*, int*&, Agg*, Ec, En, Empty, Half1, Half1&, Half2, Half2&, S, S&> Ops;
template<class T> struct ORow { template<class V> struct Col { static void run() { MC_STATE(nm<T>() + " op " + nm<V>()); trace(); ALL2(CK2) } }; static void run() { over<Col, 0>(Ops()); MC_STATE("op " + nm<T>()); trace(); ALL1(CK1) } };
MC_SECTION(operators) { over<ORow, 0>(Ops()); }
template<class T, class V, class = void> struct Sub : std::false_type {}; template<class T, class V> struct Sub<T, V, decltype(void(val<T>()[val<V>()]))> : std::true_type {};
template<class T> struct Subs { template<class V> struct Col { static void run() { MC_STATE(nm<T>() + "[" + nm<V>() + "]"); trace(); eq("has_subscript", bool(sprout::has_subscript<T, V>::value), bool(Sub<T, V>::value)); } }; static void run() { over<Col, 0>(L<int, std::size_t, char, double, Ec, S>()); } };
MC_SECTION(subscripts) { over<Subs, 0>(L<int, int*, int(&)[3], void*, S, S const&, Half1, Half2>()); }
// invocation
#if __cplusplus >= 201703L
template<class F> struct Inv { template<class R> S static res(std::true_type) { return nm<typename R::type>(); }
	template<class... V> static void with() { MC_STATE(nm<F>() + " with " + str(sizeof...(V)) + nm<L<V...> >()); trace(); eq("is_invocable", sprout::is_invocable<F, V...>::value, std::is_invocable<F, V...>::value); eq("is_nothrow_invocable", sprout::is_nothrow_invocable<F, V...>::value, std::is_nothrow_invocable<F, V...>::value); eq("is_invocable_r", sprout::is_invocable_r<long, F, V...>::value, std::is_invocable_r<long, F, V...>::value); eq("is_invocable_r void", sprout::is_invocable_r<void, F, V...>::value, std::is_invocable_r<void, F, V...>::value); eq("is_invocable_r class", sprout::is_invocable_r<FromInt, F, V...>::value, std::is_invocable_r<FromInt, F, V...>::value); if constexpr (std::is_invocable<F, V...>::value && sprout::is_invocable<F, V...>::value) { eq("invoke_result", std::is_same<typename sprout::invoke_result<F, V...>::type, typename std::invoke_result<F, V...>::type>::value, true); eq("result_of", std::is_same<typename sprout::result_of<typename std::conditional<std::is_function<F>::value, F&, F>::type(V...)>::type, typename std::invoke_result<F, V...>::type>::value, true); } }
	static void run() { with<>(); with<int>(); with<char>(); with<S>(); with<int, char>(); with<Agg>(); with<Agg&>(); with<Agg const&>(); with<Agg*>(); with<Agg const*>(); with<Derived&>(); with<Derived*>(); with<Agg&, int>(); with<Agg*, int>(); with<Derived, int>(); with<Agg const&, int>(); with<Empty&, int>(); with<int, int, int>(); } };
MC_SECTION(invocation) { over<Inv, 0>(L<int, Fn, Fn&, Fn*, Fv*, Pm, Pf, Pfc, Pm const&, Call, Call&, Call const&, Lam, Agg, void, int(*)(int, char) noexcept>()); }
#endif
// arithmetic promotion
template<class T> struct Prom { template<class V> struct Col { static void run() { MC_STATE(nm<T>() + "+" + nm<V>()); trace(); typedef decltype(val<T>() + val<V>()) W; eq("arithmetic_promote", std::is_same<typename sprout::arithmetic_promote<T, V>::type, W>::value && std::is_same<typename sprout::arithmetic_promote<T const, V, char>::type, decltype(val<W>() + 'c')>::value, true); typedef typename std::conditional<std::is_integral<T>::value, double, T>::type F1; typedef typename std::conditional<std::is_integral<V>::value, double, V>::type F2; typedef decltype(F1() + F2()) F; eq("float_promote", std::is_same<typename sprout::float_promote<T, V>::type, F>::value && std::is_same<typename sprout::float_promote<T, V volatile, float>::type, decltype(F() + 0.f)>::value && std::is_same<typename sprout::float_promote<T>::type, F1>::value, true); if (std::is_floating_point<T>::value && std::is_floating_point<V>::value) eq("complex_promote", std::is_same<typename sprout::complex_promote<sprout::complex<T>, V>::type, sprout::complex<F> >::value && std::is_same<typename sprout::complex_promote<T, sprout::complex<V> >::type, sprout::complex<F> >::value, true); } }; static void run() { over<Col, 0>(L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double>()); } };
MC_SECTION(promotion) { over<Prom, 0>(L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double, long double>()); }
template<bool... V> struct Log { static void run() { MC_STATE("logic " + str(sizeof...(V)) + nm<std::integer_sequence<bool, V...> >()); trace(); bool a = true, o = false; int d[] = {0, (a = a && V, o = o || V, 0)...}; (void)d; eq("conjunction", bool(sprout::conjunction<std::integral_constant<bool, V>...>::value), a); eq("disjunction", bool(sprout::disjunction<std::integral_constant<bool, V>...>::value), o); eq("negation", bool(sprout::negation<std::integral_constant<bool, sizeof...(V) != 2> >::value), sizeof...(V) == 2); go(std::integral_constant<bool, (sizeof...(V) < 5)>()); } template<class X1> static void go(X1) { go2(X1()); } static void go2(std::true_type) { Log<V..., false>::run(); Log<V..., true>::run(); } static void go2(std::false_type) {} };
MC_SECTION(logic) { Log<>::run(); MC_STATE("misc"); trace(); eq("is_c_str", sprout::is_c_str<char[4]>::value && sprout::is_c_str<wchar_t const[2]>::value && !sprout::is_c_str<char*>::value && !sprout::is_c_str<int[3]>::value && !sprout::is_c_str<char[2][2]>::value, true); eq("aligned_union", alignof(sprout::aligned_union<3, char, double, int>::type) == alignof(double) && sizeof(sprout::aligned_union<3, char, double, int>::type) == sizeof(double) && sizeof(sprout::aligned_union<100, char, double>::type) == 104, true); eq("aligned_storage", sizeof(sprout::aligned_storage<10, 4>::type) == 12 && alignof(sprout::aligned_storage<10, 4>::type) == 4, true); eq("has_type", sprout::has_type<std::enable_if<true> >::value && !sprout::has_type<std::enable_if<false> >::value && sprout::has_value<std::true_type>::value && !sprout::has_value<Agg>::value && !sprout::has_type<int>::value, true); eq("is_within_namespace_std", sprout::is_within_namespace_std<S>::value && !sprout::is_within_namespace_std<Agg>::value && !sprout::is_within_namespace_std<int>::value && sprout::is_within_namespace_sprout<sprout::complex<double> >::value && !sprout::is_within_namespace_sprout<S>::value, true);
	eq("const_reference", 1 + 2 * std::is_same<sprout::const_reference<int&>::type, int const&>::value + 4 * std::is_same<sprout::lvalue_reference<int&>::type, int&>::value, 7); eq("is_upcast", sprout::is_upcast<Derived*, Agg*>::value && !sprout::is_upcast<Agg*, Derived*>::value && sprout::is_upcast<Derived&, Agg&>::value && sprout::is_upcast<std::nullptr_t, Agg*>::value && !sprout::is_upcast<Empty*, Agg*>::value, true); eq("is_const_cast_convertible", sprout::is_const_cast_convertible<int const*, int*>::value && sprout::is_const_cast_convertible<int const&, int&>::value && !sprout::is_const_cast_convertible<int*, long*>::value, true); eq("is_nullptr_cast", sprout::is_nullptr_cast<std::nullptr_t, int*>::value && !sprout::is_nullptr_cast<int, int*>::value && !sprout::is_nullptr_cast<std::nullptr_t, int>::value, true); }
#endif
#endif
