#if PART == 0
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm/search.hpp>
#include <sprout/algorithm/min_element.hpp>
#include <sprout/algorithm/max_element.hpp>
#include <sprout/algorithm/minmax_element.hpp>
#include <sprout/algorithm/searching.hpp>
CE(all_of, SEQ, so::all_of(Bx, Ex, Even())) CE(any_of, SEQ, so::any_of(Bx, Ex, Even())) CE(none_of, SEQ, so::none_of(Bx, Ex, Even())) CE(one_of, SEQ, so::one_of(Bx, Ex, Even()))
CE(all_of_equal, SEQ, so::all_of_equal(Bx, Ex, 1)) CE(any_of_equal, SEQ, so::any_of_equal(Bx, Ex, 1)) CE(none_of_equal, SEQ, so::none_of_equal(Bx, Ex, 1)) CE(one_of_equal, SEQ, so::one_of_equal(Bx, Ex, 1))
CE(count, SEQ, so::count(Bx, Ex, 1)) CE(count_if, SEQ, so::count_if(Bx, Ex, Even())) CE(find, SEQ, so::find(Bx, Ex, 2) - Bx) CE(find_if, SEQ, so::find_if(Bx, Ex, Even()) - Bx) CE(find_if_not, SEQ, so::find_if_not(Bx, Ex, Even()) - Bx)
CE(adjacent_find, SEQ, so::adjacent_find(Bx, Ex) - Bx) CE(adjacent_find_pred, SEQ, so::adjacent_find(Bx, Ex, GtFn()) - Bx)
CE(is_sorted, SEQ, so::is_sorted(Bx, Ex)) CE(is_sorted_comp, SEQ, so::is_sorted(Bx, Ex, GtFn())) CE(is_sorted_until, SEQ, so::is_sorted_until(Bx, Ex) - Bx) CE(is_heap, SEQ, so::is_heap(Bx, Ex)) CE(is_heap_until, SEQ, so::is_heap_until(Bx, Ex) - Bx) CE(is_heap_until_comp, SEQ, so::is_heap_until(Bx, Ex, GtFn()) - Bx)
CE(is_increasing, SEQ, so::is_increasing(Bx, Ex)) CE(is_decreasing, SEQ, so::is_decreasing(Bx, Ex)) CE(is_strictly_increasing, SEQ, so::is_strictly_increasing(Bx, Ex)) CE(is_strictly_decreasing, SEQ, so::is_strictly_decreasing(Bx, Ex))
CE(is_partitioned, SEQ, so::is_partitioned(Bx, Ex, Even())) CE(partition_point, SEQ, so::is_partitioned(Bx, Ex, Even()) ? so::partition_point(Bx, Ex, Even()) - Bx : -1)
CE(min_element, SEQ, so::min_element(Bx, Ex) - Bx) CE(max_element, SEQ, so::max_element(Bx, Ex) - Bx) CE(minmax_element, SEQ, (so::minmax_element(Bx, Ex).first - Bx) * 10 + (so::minmax_element(Bx, Ex).second - Bx)) CE(minmax_element_comp, SEQ, (so::minmax_element(Bx, Ex, GtFn()).first - Bx) * 10 + (so::minmax_element(Bx, Ex, GtFn()).second - Bx))
CE(search_n, SEQ, so::search_n(Bx, Ex, 2, 1) - Bx) CE(search_n_pred, SEQ, so::search_n(Bx, Ex, 3, 1, Par()) - Bx)
CE(lower_bound, SORTED, so::lower_bound(Bx, Ex, 1) - Bx) CE(upper_bound, SORTED, so::upper_bound(Bx, Ex, 1) - Bx) CE(binary_search, SORTED, so::binary_search(Bx, Ex, 1)) CE(equal_range, SORTED, (so::equal_range(Bx, Ex, 1).first - Bx) * 10 + (so::equal_range(Bx, Ex, 1).second - Bx))
CE(equal, PAIR, so::equal(B1, E1, B2, E2)) CE(equal_pred, PAIR, so::equal(B1, E1, B2, E2, Par())) CE(mismatch, PAIR, x.x.n <= x.y.n ? (so::mismatch(B1, E1, B2).first - B1) * 10 + (so::mismatch(B1, E1, B2).second - B2) : 0) CE(lexicographical_compare, PAIR, so::lexicographical_compare(B1, E1, B2, E2)) CE(tristate_lexicographical_compare, PAIR, so::tristate_lexicographical_compare(B1, E1, B2, E2))
CE(search, PAIR, so::search(B1, E1, B2, E2) - B1) CE(find_end, PAIR, so::find_end(B1, E1, B2, E2) - B1) CE(find_first_of, PAIR, so::find_first_of(B1, E1, B2, E2) - B1) CE(is_permutation, PAIR, so::is_permutation(B1, E1, B2, E2)) CE(is_permutation_same, PAIR, x.x.n == x.y.n && so::is_permutation(B1, E1, B2)) CE(includes, SPAIR, so::includes(B1, E1, B2, E2)) CE(includes_comp, SPAIR, so::includes(B1, E1, B2, E2, so::less<>()))
CE(find_difference, SPAIR, so::find_difference(B1, E1, B2, E2).first - B1) CE(find_intersection, SPAIR, so::find_intersection(B1, E1, B2, E2).first - B1) CE(find_symmetric_difference, SPAIR, so::find_symmetric_difference(B1, E1, B2, E2).first - B1)
CE(clamp, SEQ, so::clamp(x.a[0], 1, 2)) CE(min, SEQ, so::min(x.a[0], x.a[1])) CE(max, SEQ, so::max(x.a[0], x.a[1], GtFn()))
#if __cplusplus >= 201402L
CE(min_list, SEQ, so::min({x.a[0], x.a[1], x.a[2]})) CE(max_list, SEQ, so::max({x.a[0], x.a[1], x.a[2]}))
#endif
CE(minmax, SEQ, so::minmax(x.a[0], x.a[1]).first * 10 + so::minmax(x.a[0], x.a[1]).second)
#endif
#if PART == 1
#include <sprout/algorithm.hpp>
#include <sprout/algorithm/fixed.hpp>
CE(reverse, FULL, so::fixed::reverse(x.a)) CE(reverse_copy, SEQ, so::fixed::reverse_copy(Bx, Ex, OUT4())) CE(rotate, FULL, so::fixed::rotate(x.a, Bx + x.a[0])) CE(rotate_copy, FULL, so::fixed::rotate_copy(Bx, Bx + x.a[1], Ex, OUT4()))
CE(sort, FULL, so::fixed::sort(x.a)) CE(sort_comp, FULL, so::fixed::sort(x.a, GtFn())) CE(stable_sort, FULL, so::fixed::stable_sort(x.a)) CE(stable_sort_comp, FULL, so::fixed::stable_sort(x.a, GtFn())) CE(partial_sort, FULL, so::fixed::partial_sort(x.a, Bx + x.a[0])) CE(nth_element, FULL, so::fixed::nth_element(x.a, Bx + x.a[0]))
CE(make_heap, FULL, so::fixed::make_heap(x.a)) CE(sort_heap, FULL, so::fixed::sort_heap(so::fixed::make_heap(x.a))) CE(pop_heap, FULL, so::fixed::pop_heap(so::fixed::make_heap(x.a))) CE(push_heap, FULL, so::is_heap(Bx, Bx + 3) ? so::fixed::push_heap(x.a) : x.a) CE(make_partial_heap, FULL, so::fixed::make_partial_heap(x.a, Bx + 2))
CE(unique, FULL, so::fixed::unique(x.a)) CE(unique_copy, SEQ, so::fixed::unique_copy(Bx, Ex, OUT4())) CE(remove, FULL, so::fixed::remove(x.a, 1)) CE(remove_if, FULL, so::fixed::remove_if(x.a, Even())) CE(remove_copy, SEQ, so::fixed::remove_copy(Bx, Ex, OUT4(), 1)) CE(remove_copy_if, SEQ, so::fixed::remove_copy_if(Bx, Ex, OUT4(), Even()))
CE(replace, FULL, so::fixed::replace(x.a, 1, 5)) CE(replace_if, FULL, so::fixed::replace_if(x.a, Even(), 5)) CE(replace_copy, SEQ, so::fixed::replace_copy(Bx, Ex, OUT4(), 1, 5)) CE(replace_copy_if, SEQ, so::fixed::replace_copy_if(Bx, Ex, OUT4(), Even(), 5))
CE(fill, FULL, so::fixed::fill(x.a, 3)) CE(fill_n, FULL, so::fixed::fill_n(x.a, x.a[0], 3)) CE(copy, SEQ, so::fixed::copy(Bx, Ex, OUT4())) CE(copy_n, SEQ, so::fixed::copy_n(Bx, x.n, OUT4())) CE(copy_if, SEQ, so::fixed::copy_if(Bx, Ex, OUT4(), Even())) CE(copy_while, SEQ, so::fixed::copy_while(Bx, Ex, OUT4(), Even())) CE(copy_until, SEQ, so::fixed::copy_until(Bx, Ex, OUT4(), Even())) CE(copy_backward, SEQ, so::fixed::copy_backward(Bx, Ex, OUT4()))
CE(transform, SEQ, so::fixed::transform(Bx, Ex, OUT4(), Neg())) CE(transform2, PAIR, so::fixed::transform(B1, B1 + so::min(x.x.n, x.y.n), B2, OUT4(), Sum()))
CE(merge, SPAIR, so::fixed::merge(B1, E1, B2, E2, OUT4())) CE(set_union, SPAIR, so::fixed::set_union(B1, E1, B2, E2, OUT4())) CE(set_intersection, SPAIR, so::fixed::set_intersection(B1, E1, B2, E2, OUT4())) CE(set_difference, SPAIR, so::fixed::set_difference(B1, E1, B2, E2, OUT4())) CE(set_symmetric_difference, SPAIR, so::fixed::set_symmetric_difference(B1, E1, B2, E2, OUT4()))
CE(partition, FULL, so::fixed::partition(x.a, Even())) CE(stable_partition, FULL, so::fixed::stable_partition(x.a, Even())) CE(partition_copy, SEQ, so::fixed::partition_copy(Bx, Ex, OUT4(), Even())) CE(stable_partition_copy, SEQ, so::fixed::stable_partition_copy(Bx, Ex, OUT4(), Even()))
CE(swap_element, FULL, so::fixed::swap_element(x.a, Bx + x.a[0], Bx + x.a[1])) CE(swap_element_copy, FULL, so::fixed::swap_element_copy(Bx, Ex, OUT4(), Bx + x.a[0], Bx + x.a[1])) CE(next_permutation, FULL, so::fixed::next_permutation(x.a).first) CE(next_permutation_more, FULL, so::fixed::next_permutation(x.a).second) CE(prev_permutation, FULL, so::fixed::prev_permutation(x.a).first)
CE(clamp_range, FULL, so::fixed::clamp_range(x.a, 1, 1)) CE(clamp_range_copy, SEQ, so::fixed::clamp_range_copy(Bx, Ex, OUT4(), 1, 2)) CE(iter_inplace_merge, FULL, so::is_sorted(Bx, Bx + 2) && so::is_sorted(Bx + 2, Ex) ? so::fixed::inplace_merge(x.a, Bx + 2) : x.a)
CE(generate_n, FULL, so::fixed::fill_n(x.a, 2, 3))
#endif
#if PART == 2 && __cplusplus >= 201402L
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/random.hpp>
MU(reverse, SEQ, so::reverse(b, e)) MU(rotate, SEQ, if (n) so::rotate(b, b + a[0] % n, e)) MU(sort, SEQ, so::sort(b, e)) MU(sort_comp, SEQ, so::sort(b, e, GtFn())) MU(stable_sort, SEQ, so::stable_sort(b, e)) MU(partial_sort, SEQ, so::partial_sort(b, b + n / 2, e)) MU(nth_element, SEQ, so::nth_element(b, b + n / 2, e))
MU(make_heap, SEQ, so::make_heap(b, e)) MU(heap_sort, SEQ, so::make_heap(b, e); so::sort_heap(b, e)) MU(pop_heap, SEQ, if (n) { so::make_heap(b, e); so::pop_heap(b, e); }) MU(push_heap, SEQ, if (n) { so::make_heap(b, e - 1); so::push_heap(b, e); })
MU(unique, SEQ, a[3] = so::unique(b, e) - b) MU(remove, SEQ, a[3] = so::remove(b, e, 1) - b) MU(remove_if, SEQ, a[3] = so::remove_if(b, e, Even()) - b) MU(replace, SEQ, so::replace(b, e, 1, 5)) MU(replace_if, SEQ, so::replace_if(b, e, Even(), 5)) MU(fill, SEQ, so::fill(b, e, 3)) MU(fill_n, SEQ, so::fill_n(b, n, 3))
MU(partition, SEQ, so::partition(b, e, Even())) MU(stable_partition, SEQ, so::stable_partition(b, e, Even())) MU(next_permutation, SEQ, if (!so::next_permutation(b, e)) a[3] += 20) MU(prev_permutation, SEQ, if (!so::prev_permutation(b, e)) a[3] += 20) MU(inplace_merge, SEQ, so::sort(b, b + n / 2); so::sort(b + n / 2, e); so::inplace_merge(b, b + n / 2, e))
MU(swap_ranges, SEQ, so::swap_ranges(b, b + n / 2, b + 2)) MU(iter_swap, SEQ, so::iter_swap(b, b + n % 4)) MU(clamp_range, SEQ, so::clamp_range(b, e, b, 1, 1))
MU(transform, SEQ, so::transform(b, e, b, Neg())) MU(copy_backward, SEQ, if (n < 4) so::copy_backward(b, e, e + 1)) MU(copy, SEQ, if (n) so::copy(b + 1, e, b)) MU(move, SEQ, if (n) so::move(b + 1, e, b)) MU(move_backward, SEQ, if (n < 4) so::move_backward(b, e, e + 1)) MU(iota, SEQ, so::iota(b, e, 5)) MU(partial_sum, SEQ, so::partial_sum(b, e, b)) MU(adjacent_difference, SEQ, so::adjacent_difference(b, e, b)) MU(inclusive_scan, SEQ, so::inclusive_scan(b, e, b)) MU(exclusive_scan, SEQ, so::exclusive_scan(b, e, b, 1))
MU(shuffle, SEQ, so::minstd_rand0 g(7); so::shuffle(b, e, g)) MU(random_shuffle, SEQ, so::minstd_rand0 g(7); so::shuffle(b, e, g); so::shuffle(b, e, g))
MU2(merge, SPAIR, if (x.x.n + x.y.n <= 4) so::merge(B1, E1, B2, E2, o)) MU2(set_union, SPAIR, if (x.x.n + x.y.n <= 4) so::set_union(B1, E1, B2, E2, o)) MU2(set_intersection, SPAIR, so::set_intersection(B1, E1, B2, E2, o)) MU2(set_difference, SPAIR, so::set_difference(B1, E1, B2, E2, o)) MU2(set_symmetric_difference, SPAIR, if (x.x.n + x.y.n <= 4) so::set_symmetric_difference(B1, E1, B2, E2, o))
MU2(copy_if, PAIR, so::copy_if(B1, E1, o, Even())) MU2(copy_n, PAIR, so::copy_n(B1, x.x.n, o)) MU2(remove_copy, PAIR, so::remove_copy(B1, E1, o, 1)) MU2(remove_copy_if, PAIR, so::remove_copy_if(B1, E1, o, Even())) MU2(replace_copy, PAIR, so::replace_copy(B1, E1, o, 1, 6)) MU2(replace_copy_if, PAIR, so::replace_copy_if(B1, E1, o, Even(), 6)) MU2(unique_copy, PAIR, so::unique_copy(B1, E1, o)) MU2(reverse_copy, PAIR, so::reverse_copy(B1, E1, o)) MU2(rotate_copy, PAIR, so::rotate_copy(B1, B1 + x.x.n / 2, E1, o)) MU2(partition_copy, PAIR, so::partition_copy(B1, E1, o, o + 2, Even())) MU2(partial_sort_copy, PAIR, so::partial_sort_copy(B1, E1, o, o + 2)) MU2(transform2, PAIR, if (x.x.n <= x.y.n) so::transform(B1, E1, B2, o, Sum()))
#endif
#if PART == 3
#include <sprout/numeric.hpp>
#include <sprout/range/adaptor.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/math.hpp>
namespace ad = sprout::adaptors;
constexpr int h(int s) { return s; }
template<class R> constexpr int dg(R const& r) { return so::range::accumulate(r, 1, Sum()) % 1000003; }
CE(accumulate, SEQ, so::accumulate(Bx, Ex, 1)) CE(accumulate_op, SEQ, so::accumulate(Bx, Ex, 1, Sum())) CE(reduce, SEQ, so::reduce(Bx, Ex, 1)) CE(inner_product, PAIR, x.x.n <= x.y.n ? so::inner_product(B1, E1, B2, 2) : 0) CE(transform_reduce, SEQ, so::transform_reduce(Bx, Ex, 1, so::plus<>(), Neg()))
CE(iota, SEQ, so::fixed::iota(x.a, x.n)) CE(partial_sum, SEQ, so::fixed::partial_sum(Bx, Ex, OUT4())) CE(partial_sum_op, SEQ, so::fixed::partial_sum(Bx, Ex, OUT4(), Sum())) CE(adjacent_difference, SEQ, so::fixed::adjacent_difference(Bx, Ex, OUT4())) CE(inclusive_scan, SEQ, so::fixed::inclusive_scan(Bx, Ex, OUT4())) CE(exclusive_scan, SEQ, so::fixed::exclusive_scan(Bx, Ex, OUT4(), 2)) CE(gcd, IDX, so::math::gcd(x % 8 * 6, x / 8 * 9)) CE(lcm, IDX, so::math::lcm(x % 8, x / 8))
CE(r_reversed, FULL, dg(x.a | ad::reversed)) CE(r_filtered, FULL, dg(x.a | ad::filtered(Even()))) CE(r_transformed, FULL, dg(x.a | ad::transformed(Neg()))) CE(r_replaced, FULL, dg(x.a | ad::replaced(1, 5))) CE(r_replaced_if, FULL, dg(x.a | ad::replaced_if(Even(), 5))) CE(r_removed, FULL, dg(x.a | ad::removed(1))) CE(r_removed_if, FULL, dg(x.a | ad::removed_if(Even()))) CE(r_uniqued, FULL, dg(x.a | ad::uniqued)) CE(r_clamped, FULL, dg(x.a | ad::clamped(1, 1))) CE(r_taken, FULL, dg(x.a | ad::taken(x.a[0]))) CE(r_dropped, FULL, dg(x.a | ad::dropped(x.a[0]))) CE(r_taken_end, FULL, dg(x.a | ad::taken_end(-x.a[0]))) CE(r_dropped_end, FULL, dg(x.a | ad::dropped_end(-x.a[0]))) CE(r_window, FULL, dg(x.a | ad::window(1, 3))) CE(r_steps, FULL, dg(x.a | ad::steps(2))) CE(r_jointed, FULL, dg(x.a | ad::jointed(x.a))) CE(r_alternated, FULL, dg(x.a | ad::alternated(x.a))) CE(r_adjacent_filtered, FULL, dg(x.a | ad::adjacent_filtered(GtFn()))) CE(r_chain, FULL, dg(x.a | ad::reversed | ad::transformed(Neg()) | ad::filtered(Even())))
CE(r_copied, FULL, (x.a | ad::reversed | ad::copied).operator A4()) CE(ra_count, FULL, so::range::count(x.a, 1)) CE(ra_find, FULL, so::range::find(x.a, 1) - Bx) CE(sub_window, FULL, dg(so::sub(x.a, x.a[0], x.a[0] + x.a[1])))
#endif
#if PART == 4
#include <sprout/string.hpp>
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/cctype.hpp>
#include <sprout/utility/string_view.hpp>
typedef so::basic_string<char, 4> S4;
constexpr char ch(int d) { return d == 0 ? 'a' : d == 1 ? '1' : d == 2 ? '-' : d == 3 ? ' ' : '\0'; }
// text of the sequence; k(i) letters; terminated
struct Tx { char c[5]; int n; };
constexpr char tc(In const& s, int k) { return k < s.n ? ch(s.a[k]) : '\0'; }
constexpr Tx txt(In const& s) { return Tx{{tc(s, 0), tc(s, 1), tc(s, 2), tc(s, 3), '\0'}, s.n}; }
constexpr Tx TXT(int i) { return txt(SEQ(i)); }
constexpr int NTXT = 121;
struct Tx2 { Tx x, y; };
constexpr Tx2 TX2(int i) { return Tx2{TXT(i % 40), TXT(i / 40)}; }
constexpr int NTX2 = 1600;
constexpr S4 mk(Tx const& t) { return S4(t.c, (std::size_t)t.n); }
constexpr int sg(int v) { return v < 0 ? -1 : v > 0; }
constexpr int pos(std::size_t p) { return p == (std::size_t)-1 ? -1 : (int)p; }
CE(s_make, TXT, mk(x)) CE(s_size, TXT, (int)mk(x).size()) CE(s_compare, TX2, sg(mk(x.x).compare(mk(x.y)))) CE(s_less, TX2, mk(x.x) < mk(x.y)) CE(s_eq, TX2, mk(x.x) == mk(x.y)) CE(s_find, TX2, pos(mk(x.x).find(mk(x.y)))) CE(s_rfind, TX2, pos(mk(x.x).rfind(mk(x.y)))) CE(s_ffo, TX2, pos(mk(x.x).find_first_of(mk(x.y)))) CE(s_flo, TX2, pos(mk(x.x).find_last_of(mk(x.y)))) CE(s_ffno, TX2, pos(mk(x.x).find_first_not_of(mk(x.y)))) CE(s_flno, TX2, pos(mk(x.x).find_last_not_of(mk(x.y))))
CE(s_substr, TXT, mk(x).substr(x.n / 2, 2)) CE(s_concat, TX2, mk(x.x) + mk(x.y))
CE(strlen, TXT, (int)so::strlen(x.c)) CE(strcmp, TX2, sg(so::strcmp(x.x.c, x.y.c))) CE(strncmp, TX2, sg(so::strncmp(x.x.c, x.y.c, 2))) CE(strchr, TXT, so::strchr(x.c, '1') ? so::strchr(x.c, '1') - x.c : -1) CE(strrchr, TXT, so::strrchr(x.c, '1') ? so::strrchr(x.c, '1') - x.c : -1) CE(strspn, TX2, (int)so::strspn(x.x.c, x.y.c)) CE(strcspn, TX2, (int)so::strcspn(x.x.c, x.y.c)) CE(strpbrk, TX2, so::strpbrk(x.x.c, x.y.c) ? so::strpbrk(x.x.c, x.y.c) - x.x.c : -1) CE(strstr, TX2, so::strstr(x.x.c, x.y.c) ? so::strstr(x.x.c, x.y.c) - x.x.c : -1) CE(strcoll, TX2, sg(so::strcoll(x.x.c, x.y.c)))
CE(atoi, TXT, so::atoi(x.c)) CE(strtol, TXT, so::strtol(x.c, nullptr, 16)) CE(strtoul, TXT, so::strtoul(x.c, nullptr, 0)) CE(strtod, TXT, so::strtod(x.c, nullptr)) CE(to_string, IDX, so::to_string(x * 33337 - 999999)) CE(to_string_u, IDX, so::to_string((unsigned long long)x * 288230376151711743ull)) CE(to_string_d, IDX, so::to_string((x - 32) * 0.375)) CE(string_to_int, TXT, x.n && x.c[0] == '1' ? so::from_string<int>(mk(x)) : 0)
CE(stoi, TXT, x.n && x.c[0] == '1' ? so::stoi(mk(x)) : 0) CE(view_find, TX2, pos(so::string_view(x.x.c, x.x.n).find(so::string_view(x.y.c, x.y.n)))) CE(view_rfind, TX2, pos(so::string_view(x.x.c, x.x.n).rfind(so::string_view(x.y.c, x.y.n)))) CE(view_cmp, TX2, sg(so::string_view(x.x.c, x.x.n).compare(so::string_view(x.y.c, x.y.n)))) CE(view_starts, TX2, so::string_view(x.x.c, x.x.n).starts_with(so::string_view(x.y.c, x.y.n))) CE(view_ends, TX2, so::string_view(x.x.c, x.x.n).ends_with(so::string_view(x.y.c, x.y.n)))
constexpr int NCH = 128; constexpr int CH(int i) { return i; }
CE(isalnum, CH, so::isalnum((char)x) != 0) CE(isalpha, CH, so::isalpha((char)x) != 0) CE(isspace, CH, so::isspace((char)x) != 0) CE(ispunct, CH, so::ispunct((char)x) != 0) CE(isprint, CH, so::isprint((char)x) != 0) CE(isgraph, CH, so::isgraph((char)x) != 0) CE(iscntrl, CH, so::iscntrl((char)x) != 0) CE(isblank, CH, so::isblank((char)x) != 0) CE(isdigit, CH, so::isdigit((char)x) != 0) CE(isxdigit, CH, so::isxdigit((char)x) != 0) CE(isupper, CH, so::isupper((char)x) != 0) CE(islower, CH, so::islower((char)x) != 0) CE(toupper, CH, so::toupper((char)x)) CE(tolower, CH, so::tolower((char)x))
struct Ux { unsigned char c[5]; }; constexpr unsigned char uc(Tx const& t, int k) { return (unsigned char)(t.c[k] + 128); } constexpr Ux ux(Tx const& t) { return Ux{{uc(t, 0), uc(t, 1), uc(t, 2), uc(t, 3), uc(t, 4)}}; }
constexpr int mcmp(Ux const& a, Ux const& b) { return sg(so::memcmp(a.c, b.c, 3)); } constexpr bool mchr(Ux const& a) { return so::memchr(a.c, '-' + 128, 5) != nullptr; }
CE(memcmp, TX2, mcmp(ux(x.x), ux(x.y))) CE(memchr, TXT, mchr(ux(x)))
#endif
#if PART == 5
#include <sprout/math.hpp>
#include <sprout/cmath.hpp>
#include <sprout/complex.hpp>
#include <sprout/rational.hpp>
#include <sprout/cstdlib.hpp>
#include <sprout/bit/operation.hpp>
#include <sprout/integer.hpp>
constexpr double D(int i) { return (i - 32) * 0.28125; } constexpr double R8(int i) { return (i % 8 - 4) * 0.75; } constexpr double R9(int i) { return (i / 8 - 3) * 1.25; }
CE(floor, IDX, so::floor(D(x))) CE(ceil, IDX, so::ceil(D(x))) CE(trunc, IDX, so::trunc(D(x))) CE(round, IDX, so::round(D(x))) CE(lround, IDX, so::lround(D(x))) CE(fabs, IDX, so::fabs(D(x))) CE(sqrt, IDX, so::sqrt(x * 0.75)) CE(fmod, IDX, x % 8 != 4 ? so::fmod(R9(x), R8(x)) : 0) CE(remainder, IDX, x % 8 != 4 ? so::remainder(R9(x), R8(x)) : 0) CE(fdim, IDX, so::fdim(R8(x), R9(x))) CE(fmax, IDX, so::fmax(R8(x), R9(x))) CE(fmin, IDX, so::fmin(R8(x), R9(x))) CE(fma, IDX, so::fma(R8(x), R9(x), 2.5)) CE(hypot0, IDX, so::hypot(3.0 * x, 4.0 * x)) CE(copysign, IDX, so::copysign(R8(x), R9(x))) CE(signbit, IDX, so::signbit(D(x))) CE(isnan, IDX, so::isnan(D(x))) CE(isfinite, IDX, so::isfinite(D(x))) CE(fpclassify, IDX, so::fpclassify(D(x))) CE(ldexp, IDX, so::ldexp(D(x), x % 7 - 3)) CE(scalbn, IDX, so::scalbn(D(x), x % 7 - 3)) CE(ilogb, IDX, x != 32 ? so::ilogb(D(x)) : 0) CE(logb, IDX, x != 32 ? so::logb(D(x)) : 0)
#ifdef SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
CE(sin, IDX, so::sin(D(x))) CE(cos, IDX, so::cos(D(x))) CE(tan, IDX, so::tan(D(x))) CE(asin, IDX, so::asin(D(x) / 10)) CE(acos, IDX, so::acos(D(x) / 10)) CE(atan, IDX, so::atan(D(x))) CE(atan2, IDX, so::atan2(R8(x), R9(x))) CE(exp, IDX, so::exp(D(x))) CE(exp2, IDX, so::exp2(D(x))) CE(expm1, IDX, so::expm1(D(x))) CE(log, IDX, so::log(x * 0.75 + 0.125)) CE(log2, IDX, so::log2(x * 0.75 + 0.125)) CE(log10, IDX, so::log10(x * 0.75 + 0.125)) CE(log1p, IDX, so::log1p(x * 0.75)) CE(sinh, IDX, so::sinh(D(x))) CE(cosh, IDX, so::cosh(D(x))) CE(tanh, IDX, so::tanh(D(x))) CE(asinh, IDX, so::asinh(D(x))) CE(acosh, IDX, so::acosh(1 + x * 0.5)) CE(atanh, IDX, so::atanh(D(x) / 10)) CE(pow, IDX, so::pow(x % 8 + 0.5, R9(x))) CE(cbrt, IDX, so::cbrt(D(x))) CE(erf, IDX, so::erf(D(x))) CE(erfc, IDX, so::erfc(D(x))) CE(tgamma, IDX, so::tgamma(x * 0.5 + 0.25)) CE(lgamma, IDX, so::lgamma(x * 0.5 + 0.25)) CE(hypot, IDX, so::hypot(R8(x), R9(x)))
#endif
CE(frac, IDX, so::math::frac_int(D(x)).first) CE(intpart, IDX, so::math::frac_int(D(x)).second) CE(sigexp, IDX, so::math::float_sig_exp(D(x)).first) CE(sigexp2, IDX, so::math::float_sig_exp(D(x)).second) CE(remquo, IDX, x % 8 != 4 ? so::math::rem_quo(R9(x), R8(x)).second : 0) CE(rotl, IDX, so::rotl(x * 2654435761u, x % 32)) CE(is_even, IDX, so::math::is_even(D(x)))
CE(gcd, IDX, so::math::gcd(x % 8 * 6 - 9, x / 8 * 9)) CE(lcm, IDX, so::math::lcm(x % 8, x / 8 + 1)) CE(factorial, IDX, so::math::factorial<double>(x % 20)) CE(quotient, IDX, so::math::quotient(x - 32, 7)) CE(greater_equal, IDX, so::math::greater_equal(R8(x), R9(x)))
 CE(popcount, IDX, so::popcount((unsigned)x * 2654435761u)) CE(clz, IDX, so::clz(x + 1u)) CE(ctz, IDX, so::ctz(x + 1u)) CE(parity, IDX, so::parity((unsigned)x * 2654435761u))
typedef so::rational<int> Q; constexpr Q q(int n, int d) { return Q(n, d); }
CE(r_add, IDX, q(x % 8 - 4, 3) + q(x / 8, 5)) CE(r_sub, IDX, q(x % 8 - 4, 6) - q(x / 8, 4)) CE(r_mul, IDX, q(x % 8 - 4, 6) * q(x / 8, 4)) CE(r_div, IDX, q(x % 8 - 4, 6) / q(x / 8 + 1, 4)) CE(r_less, IDX, q(x % 8 - 4, 3) < q(x / 8 - 3, 5)) CE(r_int, IDX, q(x % 8 - 4, 3) < 1)
typedef so::complex<double> Z; constexpr Z z(int i) { return Z(R8(i), R9(i)); }
CE(z_add, IDX, z(x) + z(63 - x)) CE(z_mul, IDX, z(x) * z(63 - x)) CE(z_div, IDX, z(x) / (z(63 - x) + 7.0)) CE(z_norm, IDX, so::norm(z(x))) CE(z_conj, IDX, so::conj(z(x))) CE(z_proj, IDX, so::proj(z(x))) CE(z_eq, IDX, z(x) == z(63 - x)) CE(z_real, IDX, so::real(z(x)))
CE(abs, IDX, so::abs(x - 32)) CE(div_q, IDX, so::div(x - 32, 5).quot) CE(div_r, IDX, so::div(x - 32, 5).rem)
#endif
#if PART == 6
#include <sprout/random.hpp>
template<class G> constexpr long long nth(G const& e, int n) { return n == 0 ? (long long)e().result() : nth(e().next(), n - 1); }
template<class Dt, class G> constexpr typename Dt::result_type dn(Dt const& d, G const& e) { return d(e).result(); }
template<class Dt, class G> constexpr typename Dt::result_type dn(Dt const& d, G const& e, int n) { return n == 0 ? dn(d, e) : dn(d, e().next(), n - 1); }
#define ENG(E) CE(E##_first, IDX, nth(so::E(x + 1u), 0)) CE(E##_later, IDX, nth(so::E(x + 1u), 20))
#define ENG1(E) CE(E##_first, FEW, nth(so::E(x + 1u), 0)) CE(E##_later, FEW, nth(so::E(x + 1u), 5))
constexpr int NFEW = 4; constexpr int FEW(int i) { return i; }
ENG(minstd_rand0) ENG(minstd_rand) ENG(rand48) ENG(ecuyer1988) ENG(taus88) ENG(hellekalek1995) ENG1(knuth_b) ENG1(kreutzer1986) ENG1(mt19937) ENG1(mt11213b) ENG1(mt19937_64)
#define MS so::minstd_rand0(x + 1u)
CE(uniform_int, IDX, dn(so::uniform_int_distribution<int>(-3, 12), MS)) CE(uniform_int_wide, IDX, dn(so::uniform_int_distribution<long long>(-3000000000000ll, 12000000000000ll), MS)) CE(uniform_smallint, IDX, dn(so::uniform_smallint<int>(0, 6), MS)) CE(uniform_real, IDX, dn(so::uniform_real_distribution<double>(-3, 12), MS)) CE(uniform_01, IDX, dn(so::uniform_01<double>(), MS)) CE(bernoulli, IDX, dn(so::bernoulli_distribution<>(0.25), MS)) CE(binomial_small, IDX, dn(so::binomial_distribution<>(5, 0.25), MS)) CE(canonical, IDX, (so::generate_canonical<double, 30>(MS).first))
#ifdef SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
CE(geometric, IDX, dn(so::geometric_distribution<>(0.25), MS)) CE(normal, IDX, dn(so::normal_distribution<double>(1, 2), MS)) CE(poisson, IDX, dn(so::poisson_distribution<>(2.5), MS))
#endif
#endif
#if PART == 7
#include <sprout/tuple/tuple.hpp>
#include <sprout/tuple/functions.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/optional.hpp>
#include <sprout/variant.hpp>
#include <sprout/bitset.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/forward_clist.hpp>
#include <sprout/valarray.hpp>
#include <sprout/operation.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/logic/tribool.hpp>
#include <sprout/sub_array.hpp>
typedef so::tuple<int, char, long> T3; constexpr T3 t3(A4 const& a) { return T3(a[0], (char)a[1], a[2]); }
CE(t_make, FULL, t3(x.a)) CE(t_get, FULL, so::tuples::get<1>(t3(x.a))) CE(t_less, FULL, t3(x.a) < T3(1, 1, 1)) CE(t_eq, FULL, t3(x.a) == T3(1, 1, 1)) CE(t_cat, FULL, so::tuples::tuple_cat(t3(x.a), so::make_tuple(x.a[3]))) CE(t_back, FULL, so::tuples::push_back(t3(x.a), x.a[3])) CE(t_front, FULL, so::tuples::push_front(t3(x.a), x.a[3])) CE(t_pop, FULL, so::tuples::pop_front(t3(x.a))) CE(p_less, FULL, so::pair<int, int>(x.a[0], x.a[1]) < so::pair<int, int>(x.a[2], x.a[3]))
CE(a_eq, FULL, x.a == A4{{1, 2, 0, 1}}) CE(a_less, FULL, x.a < A4{{1, 2, 0, 1}}) CE(a_at, FULL, x.a.at(x.a[0])) CE(a_hash, FULL, so::hash_value(x.a)) CE(t_hash, FULL, so::hash_value(t3(x.a))) CE(a_push_back, FULL, so::push_back(x.a, 7)) CE(a_push_front, FULL, so::push_front(x.a, 7)) CE(a_pop_back, FULL, so::pop_back(x.a)) CE(a_pop_front, FULL, so::pop_front(x.a)) CE(a_insert, FULL, so::insert(x.a, Bx + x.a[0], 7)) CE(a_erase, FULL, so::erase(x.a, Bx + x.a[0])) CE(a_append, FULL, so::append_back(x.a, x.a)) CE(a_set, FULL, so::set(x.a, Bx + x.a[0], 7)) CE(a_resize, FULL, so::resize<6>(x.a, 7)) CE(a_realign, FULL, so::realign(x.a, 7))
typedef so::optional<int> O; constexpr O op(int v) { return v == 0 ? O() : O(v); }
CE(o_make, FULL, op(x.a[0])) CE(o_less, FULL, op(x.a[0]) < op(x.a[1])) CE(o_eq, FULL, op(x.a[0]) == op(x.a[1])) CE(o_or, FULL, op(x.a[0]).get_value_or(9)) CE(o_value, FULL, x.a[0] ? cst(op(x.a[0])).get() : 0)
typedef so::variant<int, char, long> Vr; constexpr Vr vr(int k, int v) { return k == 0 ? Vr(v) : k == 1 ? Vr((char)v) : Vr((long)v); }
CE(v_make, FULL, vr(x.a[0], x.a[1])) CE(v_which, FULL, vr(x.a[0], x.a[1]).which()) CE(v_less, FULL, vr(x.a[0], x.a[1]) < vr(x.a[2], x.a[3])) CE(v_eq, FULL, vr(x.a[0], x.a[1]) == vr(x.a[2], x.a[3])) CE(v_get, FULL, x.a[0] == 2 ? so::tuples::get<2>(cst(vr(x.a[0], x.a[1]))) : 0)
typedef so::bitset<70> Bs; constexpr Bs bs(int i) { return Bs((unsigned long long)i * 0x0123456789abcdefull) ; }
CE(b_make, IDX, bs(x)) CE(b_and, IDX, bs(x) & bs(63 - x)) CE(b_or, IDX, bs(x) | bs(63 - x)) CE(b_xor, IDX, bs(x) ^ bs(63 - x)) CE(b_not, IDX, ~bs(x)) CE(b_shl, IDX, bs(x) << (std::size_t)(x + 7)) CE(b_shr, IDX, bs(x) >> (std::size_t)(x % 9 * 9)) CE(b_count, IDX, (int)bs(x).count()) CE(b_all, IDX, bs(x).all()) CE(b_any, IDX, bs(x).any()) CE(b_test, IDX, bs(x).test(x)) CE(b_set, IDX, cst(bs(x)).set(x)) CE(b_flip, IDX, cst(bs(x)).flip(x)) CE(b_reset, IDX, cst(bs(x)).reset(x)) CE(b_hash, IDX, so::hash_value(bs(x)))
CE(pit, IDX, *cst(so::pit<so::array<int, 3> >(x)).begin()) CE(sized_pit, FULL, (int)so::sized_pit<A4>(x.a[0], 5).size())
#if __cplusplus >= 201402L
typedef so::valarray<int, 4> Va; constexpr Va va(A4 const& a) { return Va{{a[0], a[1], a[2], a[3]}}; }
CE(va_sum, FULL, va(x.a).sum()) CE(va_min, FULL, va(x.a).min()) CE(va_shift, FULL, cst(va(x.a).shift(x.a[0] - 1))[2]) CE(va_cshift, FULL, cst(va(x.a).cshift(x.a[0] - 1))[2]) CE(va_add, FULL, cst((va(x.a) + va(x.a)))[1]) CE(va_apply, FULL, cst(va(x.a).apply(Neg()))[3])
#endif
CE(tb_and, FULL, (so::tribool(x.a[0] == 0) && (x.a[1] == 2 ? so::tribool(so::indeterminate) : so::tribool(x.a[1] == 1))) ? 1 : 0)
#endif
#if PART == 8
#include <sprout/checksum.hpp>
#include <sprout/string.hpp>
#include <sprout/uuid.hpp>
#include <sprout/weed.hpp>
#include <sprout/functional/bind.hpp>
#include <sprout/functional/mem_fn.hpp>
#include <sprout/functional/ref.hpp>
#include <sprout/functional/not1.hpp>
typedef so::basic_string<char, 4> S4; constexpr char ch(int d) { return d == 0 ? '7' : d == 1 ? '-' : 'a'; }
constexpr S4 tx(In const& s) { return S4{{ch(s.a[0]), ch(s.a[1]), ch(s.a[2]), ch(s.a[3]), '\0'}, (std::size_t)s.n}; }
CE(md5, SORTED, so::make_md5(tx(x))) CE(bind, FULL, cst(so::bind(Sum(), so::placeholders::_2, so::placeholders::_1))(x.a[0], x.a[1])) CE(bind_nested, FULL, cst(so::bind(Sum(), so::bind(Neg(), so::placeholders::_1), 4))(x.a[0])) CE(not1, FULL, so::not1(Even())(x.a[0])) CE(ref, FULL, so::ref(x.a).get()[1])
namespace wd = so::weed;
template<class R> constexpr long wr(R const& r, S4 const& t) { return r.success() ? (long)r.attr() * 8 + (r.current() - t.begin()) : -1; }
template<class R> constexpr long we(R const& r, S4 const& t) { return r.success() ? (r.current() - t.begin()) : -1; }
template<class P> constexpr long wpr(S4 const& t, P const& p) { return wr(wd::parse(t.begin(), t.end(), p), t); }
template<class P> constexpr long wpe(S4 const& t, P const& p) { return we(wd::parse(t.begin(), t.end(), p), t); }
CE(w_int, SEQ, wpr(tx(x), wd::int_)) CE(w_uint, SEQ, wpr(tx(x), wd::uint_)) CE(w_char, SEQ, wpr(tx(x), wd::char_)) CE(w_alt, SEQ, wpe(tx(x), wd::char_('a') | wd::char_('7'))) CE(w_seq, SEQ, wpe(tx(x), wd::char_('a') >> wd::char_('7'))) CE(w_kleene, SEQ, wpe(tx(x), *wd::lit('a'))) CE(w_diff, SEQ, wpe(tx(x), wd::char_ - 'a')) CE(w_list, SEQ, wpe(tx(x), wd::lim<3>(wd::char_('7')) % '-')) CE(w_not, SEQ, wpe(tx(x), !wd::lit('a') >> wd::char_))
constexpr char hx(int i) { return "0123456789abcdef"[i & 15]; }
typedef so::basic_string<char, 36> S36; template<so::index_t... I> constexpr S36 ut(int i, so::index_tuple<I...>) { return S36{{(I == 8 || I == 13 || I == 18 || I == 23 ? '-' : hx(i * 7 + (int)I * (i + 3)))..., '\0'}, 36}; }
constexpr S36 u36(int i) { return ut(i, so::make_index_tuple<36>::type()); }
CE(u_make, IDX, so::uuids::make_uuid(u36(x))) CE(u_string, IDX, so::uuids::make_uuid(u36(x)).version()) CE(u_less, IDX, so::uuids::make_uuid(u36(x)) < so::uuids::make_uuid(u36(63 - x))) CE(u_hash, IDX, so::hash_value(so::uuids::make_uuid(u36(x))))
#endif
