# Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both).
# P(id, title, statement, over, text, why, files, mechanism)
PROPS = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return values and final contents at the public interface"], hook_needed=None)))

P("A01", "Query algorithms give the standard answer for every input",
  "Every non-modifying sequence query (find, find_if, find_end, find_first_of, adjacent_find, search, search_n, count, equal, mismatch, all/any/none/one_of and their value forms, min/max/minmax element, lexicographical and tristate comparison, is_permutation, clamp, min, max, minmax) returns exactly what the C++ standard (or, for the library's own queries, their documented definition) prescribes, for forward, bidirectional and random-access iterators alike. They never read outside the given ranges and give the same answer when the predicate or comparison is passed explicitly.",
  ["inputs"], "all sequences of length up to a bound over a small alphabet, all (sub)pattern sequences, all iterator categories; long sequences with up to two deviations",
  "The tests check one 10-element array per function through its own iterators; the divide-and-conquer recursion has separate random-access, forward and input branches whose split points depend on the length.",
  ["sprout/algorithm"], [("per-category recursive implementations", "sprout/algorithm/*.hpp")])
P("A02", "Ordered-range queries match the standard on every ordered input",
  "On every correctly ordered or partitioned range, binary search, lower/upper bound, equal_range, includes, partition_point, and the searches for the intersection, difference and symmetric difference of two sorted ranges give the answer their sorted-range definition prescribes; is_sorted, is_heap, is_partitioned, is_increasing/decreasing and their *_until forms decide correctly on every range, sorted or not. Ties, empty ranges, multisets, custom orderings and every iterator category are included.",
  ["inputs"], "all sorted sequences (all sequences for the deciders) up to a length bound over a small alphabet with every probe value and all pairs of sorted sequences; long sequences at every partition position",
  "The tests use one fixed array per function and its own random-access iterators; bisection bugs live at particular (length, position) pairs and in the forward-iterator branch.",
  ["sprout/algorithm/lower_bound.hpp", "sprout/algorithm/includes.hpp", "sprout/algorithm/is_heap_until.hpp", "sprout/algorithm/find_intersection.hpp"], [("bisection and merge walks", "sprout/algorithm/*.hpp")])
P("A03", "Copying and rearranging algorithms produce exactly the standard result",
  "Each algorithm that writes through iterators (copy family, move, fill, generate, transform, replace, remove, unique, reverse, rotate, swap_ranges, partition, merge, set operations, clamp_range, partial_sort_copy, gather) leaves exactly the standard contents in the destination, returns the standard iterator, and touches no element outside the ranges it is given. Stable variants keep the relative order of equivalent elements, and partition results are permutations with the predicate boundary at the returned position.",
  ["inputs"], "all sequences up to a length bound over a small alphabet, every split/pivot/predicate, all iterator categories the algorithm accepts, guard cells around every destination",
  "The tests run each algorithm on one literal array; off-by-one, stability and category-dispatch errors need particular lengths, duplicates or split points.",
  ["sprout/algorithm/cxx14"], [("in-place loops", "sprout/algorithm/cxx14/*.hpp")])
P("A04", "Sorting, selection, heap and permutation algorithms are correct on every input",
  "sort, stable_sort, partial_sort, nth_element, inplace_merge, the heap operations and next/prev_permutation leave a permutation of the input that satisfies the ordering the standard prescribes, for every input, every cut position and every strict weak ordering. Stable algorithms preserve the order of equivalent elements, and next_permutation/prev_permutation walk the complete cycle of distinct arrangements in lexicographic order and report wrap-around exactly once.",
  ["inputs", "histories"], "all sequences up to a length bound over a small alphabet, all permutations up to a bound, all heap operation histories up to a depth; long sequences with structured patterns that cross the internal cut-offs",
  "Tests sort one array; quicksort/introsort cut-offs, equal pivots and already-ordered inputs take other branches.",
  ["sprout/algorithm/cxx14/sort.hpp", "sprout/algorithm/cxx14/stable_sort.hpp", "sprout/algorithm/cxx14/nth_element.hpp", "sprout/algorithm/cxx14/pop_heap.hpp", "sprout/algorithm/cxx14/next_permutation.hpp"], [("in-place sort and heap loops", "sprout/algorithm/cxx14")])
P("A05", "Container-returning algorithms agree with the in-place ones",
  "For every input, the value-returning (constexpr-friendly) form of each modifying algorithm returns a container whose written part equals what the standard in-place or output-iterator algorithm would produce and whose remaining elements are unchanged; a result container that is too small is filled with the truncated result. The fit form returns the same elements as a view whose size is exactly the number of elements produced. A result whose length is only known at run time (a vector) is overwritten likewise, and an insert iterator around one yields its contents with the produced elements put in front, behind or at the given position.",
  ["inputs"], "all source sequences up to a length bound over a small alphabet, all destination sizes around the result size, all predicates/values/cut positions",
  "Tests use one or two destination sizes per function; the pack-expansion and iterator-pair implementations differ by container kind and by whether the result overflows.",
  ["sprout/algorithm/fixed", "sprout/algorithm/fit"], [("parameter-pack builders and fit_size bookkeeping", "sprout/algorithm/fixed, sprout/algorithm/fit, sprout/algorithm/string")])
P("A06", "Range forms agree with iterator forms",
  "Every algorithm that accepts a whole range gives the same result (position, value, contents) as the iterator form applied to the range's begin and end, for const and non-const arrays, C arrays, sub-ranges and adapted ranges. Passing a sub-range never reads or changes elements outside it.",
  ["inputs"], "all range contents up to a length bound over a small alphabet, several range types, every algorithm with a range form",
  "Range forms are tested only where a test happens to include them; each is a separate forwarding overload that can bind the wrong end or drop an argument.",
  ["sprout/range/algorithm", "sprout/range/numeric"], [("forwarding overloads", "sprout/range/**")])
P("A07", "Folds and scans equal their left-to-right definition",
  "accumulate, reduce, inner_product, transform_reduce, partial_sum, inclusive/exclusive and transform scans, adjacent_difference and iota equal the standard's definition for every input, initial value and operation, including non-commutative operations where the standard fixes the order. This holds for the iterator, container-returning and fit forms.",
  ["inputs"], "all sequences up to a length bound over a small alphabet, associative and non-commutative operations, all iterator categories, all result sizes",
  "There is no test of the numeric headers in the suite at all.",
  ["sprout/numeric"], [("pairwise recursion and pack builders", "sprout/numeric")])
P("A08", "Randomised algorithms: every outcome valid, every outcome reachable",
  "Whatever the random source answers, shuffle, random_swap, sample, bogo_sort and bozo_sort only rearrange or select the given elements, and the sorts end in sorted order; under a source whose answers are all enumerated, shuffle reaches every permutation. The engine-returning forms hand back the source in the state after the draws that were used.",
  ["inputs", "histories"], "all answer sequences of a small-range random source, all short inputs",
  "Tests fix one seed; correctness over all answers of the source needs the whole choice tree.",
  ["sprout/algorithm/cxx14/shuffle.hpp", "sprout/algorithm/fixed/shuffle.hpp", "sprout/algorithm/fixed/random_swap.hpp", "sprout/algorithm/sample.hpp"], [("random-index draws", "sprout/algorithm/*/shuffle.hpp")])
P("I01", "Iterators obey their category's laws and yield the sequence they describe",
  "Each iterator adaptor and generator iterator (reverse, transform, filter, step, joint, alternate, clamp, indexed, counting, move, remove, replace, unique, merge, set operations, while, insert iterators, and the array/string index iterators) enumerates exactly the sequence its definition gives, from any position, forwards and - where supported - backwards and by jumps. Comparison, distance, difference and subscripting agree with stepping one element at a time, and next/prev/advance/distance agree with them.",
  ["inputs"], "all base sequences up to a length bound, all predicates over a small alphabet, all pairs of positions and all jump distances",
  "Iterator adaptors are reached only through a few algorithm tests, at begin and end positions.",
  ["sprout/iterator"], [("adaptor arithmetic", "sprout/iterator")])
P("I02", "Range adaptors present exactly the adapted sequence",
  "A range piped through any adaptor, or a composition of adaptors, presents exactly the sequence obtained by applying the corresponding list operations in order, and its size, emptiness, front, back and subscripts agree with that sequence. Copying an adapted range into a container yields the same elements.",
  ["inputs", "programs"], "all base contents up to a length bound, all pipelines of adaptors up to a depth, all parameters in a small domain",
  "The suite has no adaptor tests beyond compile checks; compositions multiply and each adaptor stores sub-ranges with its own offsets.",
  ["sprout/range/adaptor"], [("holder types and pipe operators", "sprout/range/adaptor")])
P("S01", "Array-like containers behave as a fixed sequence",
  "array, pit, sized_pit and sub_array expose exactly their elements through every access path (subscript, at, front, back, nth, data, forward and reverse iterators, tuple access), at() throws std::out_of_range exactly outside the bounds, and fill, assign, swap and comparison act element-wise as the standard array's do. A sub-array view always addresses its window of the underlying container and stays correct when copied, assigned or re-windowed.",
  ["inputs", "histories"], "all contents over a small alphabet up to a size bound, all positions and windows, all operation histories up to a depth",
  "Tests check single literal arrays; views of views, windows at the edges and histories are not covered.",
  ["sprout/array", "sprout/pit", "sprout/sized_pit", "sprout/sub_array", "sprout/container"], [("offset bookkeeping", "sprout/sub_array/sub_array.hpp")])
P("S02", "Structural container operations equal list editing",
  "append, insert, erase, push, pop, resize, realign and set operations on fixed-size sequences return a new sequence equal to the same edit on a list, at every position and count, leaving the source unchanged, in both their fixed and fit forms. The result's size is the one the edit implies.",
  ["inputs", "histories"], "all contents up to a size bound, all positions and counts, all arrays/strings/tuples supported; histories of edits up to a depth",
  "There is no test of the operation headers; each is an index expression over a parameter pack.",
  ["sprout/operation", "sprout/tuple/operation"], [("index arithmetic", "sprout/operation/fixed")])
P("S03", "Fixed-capacity strings behave as strings and never exceed capacity",
  "Through every history of operations a fixed-capacity string holds exactly the characters an ordinary string would hold, stays null-terminated within its capacity, and all searches, substrings, comparisons and concatenations return what std::basic_string returns. An operation that would exceed the capacity throws std::length_error and one with a bad position throws std::out_of_range, leaving the string unchanged.",
  ["histories", "inputs"], "all operation histories from every reachable content over a small alphabet up to a capacity bound (breadth-first until no new state), all search needles and positions",
  "Tests use one string literal; edge positions, capacity overflow, aliasing and stale bytes after shrinking need histories.",
  ["sprout/string"], [("length and terminator bookkeeping", "sprout/string/string.hpp"), ("search helpers", "sprout/string/detail/operations.hpp")])
P("S04", "String views agree with std::string_view",
  "Every observer, search, comparison and slicing operation of a string view returns what the standard string view returns for the same text, needle and position, including not-found, empty needles and positions past the end, and never reads outside the viewed text.",
  ["inputs"], "all texts and needles up to a length bound over a two-letter alphabet, all positions and counts",
  "Tests check a handful of literal calls; wrong results are at boundary positions and empty needles.",
  ["sprout/utility/string_view"], [("search helpers", "sprout/string/detail/operations.hpp")])
P("S05", "Numbers and text convert exactly",
  "Integer formatting in bases 2 to 16, and integer parsing in base 0 and 2 to 36 (stoi family, strtol family, atoi family, string literals to numbers) agree with the C library (strtol family; narrower results saturate at their own type's limits) for every value and every text, including prefixes, signs, white space, end position and overflow saturation, and read only the text or view they are given; formatting then parsing returns the same value. Parsing of decimal floating-point text and printing of floats (fixed with six places, and exponent form) agree with strtod and printf up to a few units in the last place, including signs, zero, overflow and underflow.",
  ["inputs"], "all 8/16-bit values and boundary families of 32/64-bit values in every base; all texts up to a length bound over the characters that matter",
  "There are no tests of the conversions beyond a few string literals; overflow edges and malformed text are never tried.",
  ["sprout/string/int_to_string.hpp", "sprout/string/string_to_int.hpp", "sprout/cstdlib", "sprout/cinttypes"], [("digit loops", "sprout/cstdlib/str_to_int.hpp")])
P("S06", "C string and memory functions agree with the C library",
  "strlen, strcmp, strncmp, strchr, strrchr, strstr, strspn, strcspn, strpbrk, memchr, memcmp, the copying functions (strcpy, strncpy, strcat, strncat, memcpy, memmove, memset) and their wide forms return the same result and leave the same memory as the C library for all valid arguments. They read no byte the C function may not read and write no byte outside the destination.",
  ["inputs"], "all strings up to a length bound over a small alphabet that includes negative and high characters, all counts, all overlaps",
  "Tests use one literal pair per function.",
  ["sprout/cstring", "sprout/cwchar"], [("recursive scans", "sprout/cstring/*.hpp")])
P("S07", "Character classification equals the C locale",
  "For every character code of every character type, the classification and case-conversion functions (narrow and wide, function and function-object forms) give the C locale's answer (codes outside ASCII are in no class and convert to themselves); isclassified(mask, c) holds exactly when c is in one of the classes of the mask; the case-insensitive comparisons compare the lower-case forms.",
  ["inputs"], "all 256 narrow codes, all 65536 char16_t codes, wide codes up to a bound; every set of the 12 classes",
  "No test covers ctype.",
  ["sprout/ctype"], [("mask tables", "sprout/ctype/ascii.hpp")])
P("B01", "bitset behaves as a set of N bits",
  "Every bitset operation (construction from integers and text, set/reset/flip, test, shifts, and/or/xor/not, count, all/any/none, comparison, conversion back to integer and text, find_first/find_next, hashing) gives the result std::bitset gives, for sizes below, at and above the machine word, through any history; positions outside the set throw std::out_of_range and values that do not fit throw std::overflow_error.",
  ["histories", "inputs"], "all states of small sizes (breadth-first), structured bit patterns for word-boundary sizes, every shift distance",
  "The test uses one or two sizes with literal masks; the multi-word, sub-word and zero-size cases are separate specialisations.",
  ["sprout/bitset"], [("word array and sanitising of the top word", "sprout/bitset/bitset.hpp")])
P("B02", "Bit operations are exact for every integer",
  "Population count, leading/trailing counts, parity, rotations, arithmetic and logical shifts, reversal, bit length, single-bit and bit-range setters, and right-most-bit operations give the mathematically defined result for every value and position of every integer width, signed or unsigned, with or without compiler builtins.",
  ["inputs", "configurations"], "all 8- and 16-bit values with all positions; all values with at most two runs of ones for 32/64 bits; builtin and portable configurations",
  "There are no tests of the bit headers, and the portable branch is never compiled by the suite.",
  ["sprout/bit"], [("builtin and portable branches", "sprout/bit/*.hpp")])
P("B03", "Byte-order conversion and byte views are exact",
  "Host/network/endian conversions are mutually inverse and produce the byte order their name states for every integer value and width, and a byte iterator over an object yields exactly its value representation.",
  ["inputs"], "all 16-bit values, all single-bit and byte-pattern 32/64-bit values",
  "The test converts one value.",
  ["sprout/net", "sprout/iterator/bytes_iterator.hpp", "sprout/endian_traits.hpp"], [("byte swaps", "sprout/net/endian.hpp")])
P("X01", "Calendar time converts to the right instant",
  "to_time_t of a date and time of day, given as numbers, as a tm, or as __DATE__/__TIME__ text, equals the number of seconds since the epoch in UTC for every valid date, and difftime equals the standard's.",
  ["inputs"], "every day of several centuries, every second of a day, all three forms",
  "There is no test of the calendar functions.",
  ["sprout/ctime"], [("day formula", "sprout/ctime/to_time_t.hpp")])
P("V01", "optional holds a value or nothing, through any history",
  "Through every history of construction, assignment, emplacement, reset and swap an optional reports exactly whether it holds a value and which; comparisons, value access, value_or, hashing and conversion follow from that alone, and checked access to an empty one throws bad_optional_access (or out_of_range for an index). The holder it is built on, the non-owning pointer, and comparison through pointees keep to the same: they report exactly what they were last given.",
  ["histories"], "all reachable states of pairs of optionals (breadth-first over all operations) for value, reference and class element types",
  "The test exercises straight-line scenarios on one object.",
  ["sprout/optional"], [("init flag and holder", "sprout/optional/optional.hpp")])
P("V02", "variant holds exactly one alternative and dispatches to it",
  "A variant always reports the index of, and gives access to, exactly the alternative last stored; access by another index or type fails the library's assertion, visitors are invoked with exactly that alternative, and comparison, swap, assignment and hashing follow the (index, value) pair.",
  ["histories"], "all reachable states of pairs of variants over small alternative sets, all visitors",
  "The test uses one variant with literal values.",
  ["sprout/variant"], [("which index", "sprout/variant/variant.hpp")])
P("V03", "Tuples and pairs preserve, compare and combine elements positionally",
  "Construction, element access by index and type, comparison, swap, make/tie/cat, apply, push/pop/append and conversion between tuple-like types keep every element in its position with its value; comparison is lexicographic. Structured access through the generic tuple interface works identically for arrays, pairs, complex numbers and the library's own tuple-like types.",
  ["inputs", "programs"], "all element values over a small alphabet for arities 0..4, all pairs for comparison",
  "The test compares a few literals.",
  ["sprout/tuple", "sprout/utility/pair"], [("index packs", "sprout/tuple/tuple/tuple.hpp")])
P("V05", "Three-valued logic follows Kleene's tables",
  "tribool operations, comparisons, conversions and printing follow the three-valued truth tables for every combination of operands, including mixed bool operands.",
  ["inputs"], "all operand combinations",
  "No test covers tribool.",
  ["sprout/logic"], [("tables", "sprout/logic/tribool")])
P("V06", "Rational arithmetic is exact and normalised",
  "Every rational value is in lowest terms with a positive denominator, and every arithmetic operation, comparison and conversion equals exact fraction arithmetic whenever the operands, the result and the products it is formed from are representable; a zero denominator throws. Mixed operations with integers and the compound forms agree with the binary forms.",
  ["inputs", "histories"], "all pairs of fractions with small numerators and denominators (all pairs of 8-bit-range fractions in the thorough tier), chains of operations",
  "No test covers rational.",
  ["sprout/rational"], [("gcd normalisation", "sprout/rational/rational.hpp")])
P("V07", "Complex arithmetic and functions agree with the standard",
  "Complex arithmetic on every operand kind combination agrees exactly with the textbook formula on values where that is exact, and complex functions agree with the C library up to a stated error; identities at zeros, axes and branch cuts keep the standard's sign.",
  ["inputs"], "all pairs from a grid of small exactly representable values; grid of function arguments in all quadrants and on the axes",
  "No test covers complex.",
  ["sprout/complex"], [("arithmetic operators", "sprout/complex/arithmetic_operators.hpp")])
P("V08", "valarray operations are element-wise and slices address the right elements",
  "Arithmetic, comparison, shift, cshift, apply, sum, min, max and mathematical functions act element by element, and slice, gslice, mask and indirect selections read and write exactly the addressed elements, for every size, start, stride and mask.",
  ["inputs", "histories"], "all contents over a small alphabet up to a size bound, all slices/masks/index sets, all shift distances",
  "No test covers valarray.",
  ["sprout/valarray"], [("index arithmetic", "sprout/valarray")])
P("V09", "The intrusive forward list behaves as a list",
  "Through every history of insertion, removal, splice, swap and iteration, the intrusive forward list contains exactly the items a list would contain, in order, and items removed from it are unlinked. A range of items put into a list arrives as exactly those items, even when they are still linked to others.",
  ["histories"], "all operation histories up to a depth over up to four items (breadth-first)",
  "No test covers it.",
  ["sprout/forward_clist.hpp"], [("link rewiring", "sprout/forward_clist.hpp")])
P("V10", "UUIDs parse, print, generate and compare per RFC 4122",
  "Parsing accepts exactly the documented spellings (32 hexadecimal digits in either case, with all four dashes or none, optionally in braces; text after a complete uuid is not examined) and inverts printing, whatever the stream's formatting flags; name-based generation yields the RFC's version, variant and digest bits; random generation sets the version and variant bits whatever the source and takes every other bit from one bit of the source; comparison, nil test, version and variant follow the 16 bytes.",
  ["inputs"], "all byte positions and values, all single-character deviations from valid text, names of every length up to several digest blocks",
  "No test covers uuid.",
  ["sprout/uuid"], [("text and name generators", "sprout/uuid")])
P("V11", "Equality, ordering and hashing are coherent",
  "For every value type with comparison and hashing, equality is an equivalence, the six comparisons agree with one total or lexicographic order, and equal values hash equally (also across the const, view and conversion forms the library says are equal); the combining hash functions fold the element hashes. A chained comparison (comp < a < b <= c, also with a user's ordering) is the conjunction of its neighbouring comparisons.",
  ["inputs"], "all pairs and triples of small values of every hashable/comparable type",
  "Tests compare a few literals and never hash.",
  ["sprout/functional/hash", "sprout/array/hash.hpp", "sprout/string/hash.hpp", "sprout/tuple/tuple/hash.hpp"], [("hash_combine", "sprout/functional/hash")])
P("M01", "Rounding and floating-point manipulation are exact",
  "floor, ceil, trunc, round and their integer-returning forms, fmod, remainder, remquo, modf-style splitting, frexp-style splitting, ldexp/scalbn, logb/ilogb, copysign, fabs, fdim, fmin, fmax, comparisons and classification return exactly the C library's value for every float, double and long double, with and without compiler builtins; special values (signed zeros, infinities, NaN, subnormals) included (as documented, without any builtin the sign of a zero or NaN argument of signbit and copysign is not seen). The tolerant comparisons treat two numbers as equal exactly when they differ by at most epsilon times the largest of their magnitudes and 1.",
  ["inputs", "configurations"], "every float upper half with five low halves (thorough: every 16th pattern and its neighbours), every double exponent and spread long double exponents with mantissa families, all pairs from a 142-value boundary set, all boundary shifts; builtin and two portable configurations, plus a trapping-sanitizer build",
  "No test covers math; the portable branch is never even compiled by the suite.",
  ["sprout/math"], [("portable algorithms and builtin dispatch", "sprout/math/*.hpp")])
P("M02", "Elementary functions are accurate",
  "Exponential, logarithmic, power, root, trigonometric, hyperbolic, error and gamma functions stay within a stated error of the true value on their domain, return the standard special values, and keep their basic symmetries, at run time and in constant expressions, with and without compiler builtins. The error allowed is e(R|f| + C|x f'| + A) with e the epsilon of the type and small constants R, C, A per function (listed in DESIGN.md; asin, acos, erf, erfc, tgamma and lgamma without builtins, and lgamma always, claim double precision only; portable sin, cos and tan claim absolute accuracy on |x| <= 100 and tgamma on |x| <= 100). The mathematical constants are correctly rounded.",
  ["inputs", "configurations"], "26 unary functions on every exponent with mantissa families in float, double and long double; 4 binary functions on all pairs of a coarse grid; special values alone and in pairs; builtin and portable configurations",
  "No test covers math accuracy.",
  ["sprout/math"], [("series and builtin dispatch", "sprout/math/*.hpp")])
P("M03", "Integer mathematics is exact",
  "gcd, lcm, factorials, Bernoulli numbers, integer powers, saturating sums and products, rounding up to a power of two, digit counts and the abs/div families are exact for every representable argument and result (floating tables: correctly rounded to within one unit), including zero, negative and extreme values, and without overflowing on the way.",
  ["inputs"], "all pairs of 8-bit values, boundary families for wider types, every index of the tables",
  "No test covers them.",
  ["sprout/math/gcd.hpp", "sprout/math/lcm.hpp", "sprout/math/factorial.hpp", "sprout/math/bernoulli.hpp", "sprout/integer", "sprout/utility/limited.hpp", "sprout/detail/pow.hpp", "sprout/cstdlib", "sprout/cinttypes"], [("Euclid recursion and tables", "sprout/math")])
P("M04", "Quaternion algebra holds",
  "Quaternion arithmetic equals the Hamilton product and component-wise operations exactly on exactly representable operands, conjugation, norm and inverse satisfy their defining equations, and mixed real/complex operands agree with their embedding.",
  ["inputs"], "all pairs from a small integer grid",
  "No test covers it.",
  ["sprout/math/quaternion"], [("operators", "sprout/math/quaternion")])
P("M05", "Fourier transforms invert and match the definition",
  "The discrete transform of every input equals its defining sum up to rounding, the inverse transform returns the input, the fast transform equals the plain one, and spectra are the magnitudes and phases of the transform, for every supported length.",
  ["inputs"], "all unit impulses and all short 0/1/-1 sequences for lengths up to a bound; every wave form point by point, as containers, ranges and iterators",
  "No test covers them.",
  ["sprout/numeric/dft", "sprout/numeric/fft"], [("sums and butterflies", "sprout/numeric")])
P("R01", "Random engines reproduce their published sequences",
  "Every predefined engine (and any engine with other parameters) produces exactly the sequence of its published recurrence from every seed, as the standard/Boost engine of that name does; discarding, copying, comparing, and writing then reading the state preserve the sequence.",
  ["inputs", "histories"], "all seeds in boundary families, prefixes long enough to cross several state refills; all interleavings of draw, copy and save/restore up to a depth",
  "Tests compare one value after a fixed number of draws from the default seed.",
  ["sprout/random"], [("recurrences and state refill", "sprout/random/*.hpp")])
P("R02", "Distributions stay in range and map the source exactly",
  "For every answer of the random source, with a mutable as with a constant engine, each distribution returns a value in its documented range after using the documented answers: the integer distributions give every value of their range equally often and Bernoulli its exact proportion over all answers of a source whose range divides evenly, uniform reals, generate_canonical and the normal distribution (Box-Muller) equal their defining formula, geometric, Poisson and binomial equal their published algorithms (as the Boost distribution of that name). Parameters, min, max, comparison, text save and restore, variate_generator, combine and generate_array are consistent with drawing directly.",
  ["inputs", "histories"], "all answers of small-range sources (the full choice tree), all small parameter pairs, extreme parameters",
  "Tests draw a few values from one engine.",
  ["sprout/random"], [("range mapping", "sprout/random/uniform_int_distribution.hpp")])
P("D01", "Checksums and digests match their published algorithms",
  "SHA-1, MD5 and the sum and xor checksums equal their published definition for every message, however it is split into successive blocks, including lengths around the padding boundaries.",
  ["inputs", "histories"], "all message lengths up to several blocks, all one- and two-byte messages, all two-way splits of a message",
  "No test covers checksum.",
  ["sprout/checksum"], [("block processing and padding", "sprout/checksum")])
P("W01", "Parser combinators accept exactly their grammar and consume exactly the match",
  "For every input, a parser built from the library's terminals, sequence, alternative, repetition, difference, optional, predicate and directive operators succeeds exactly when its grammar (with ordered choice and greedy repetition) matches a prefix, ends at the position after that prefix, and delivers the attribute that prefix denotes.",
  ["inputs", "programs"], "all inputs up to a length bound over a small alphabet for a family of combinator expressions that covers every operator pair",
  "There is no runnable test of the parser library.",
  ["sprout/weed"], [("parse contexts", "sprout/weed/context")])
P("W02", "The brainfuck interpreters execute the language exactly",
  "For every well-formed program, tape size, input and output size the interpreter produces exactly the output of the language definition; programs that leave the tape, exhaust the input or overflow the output fail with std::out_of_range, and the well-formedness check accepts exactly balanced programs. The alternative notations translate command by command.",
  ["programs", "inputs"], "all programs up to a length bound over the eight commands (bounded steps), inputs over a small alphabet",
  "There is no test of the interpreter.",
  ["sprout/brainfuck"], [("dispatch chain and bracket matching", "sprout/brainfuck/brainfuck.hpp")])
P("W03", "Vectors, rays, colours, scenes and curves obey their geometry",
  "For all operands, the vector operations (sum, difference, scaling, negation, dot and cross product, length, normalisation, resizing, reflection, refraction), rays (point at a distance, detached position), colours (scaling, addition, filtering, clamped conversion to bytes, alpha) and Bezier and Catmull-Rom curves give, component by component and for every tuple type used as a vector, colour or set of control points, what their defining formulas give; refraction follows Snell's law and total reflection gives the zero vector. A ray meets a sphere, an axis-aligned plane or a triangle exactly when geometry says so, at the nearest point ahead, with the distance, normal, side and texture coordinates of that point; a scene reports its nearest object; lights colour a point by the cosine law except where an object shadows it, cameras send the ray through the given pixel, and plaid, uniform, interpolated and textured materials (tiled or placed once) take the value their pattern has there.",
  ["inputs"], "all pairs of vectors of small integer components, all colours on a grid, all sets of up to 6 control points on a grid with parameters inside and outside the unit interval, all rays from grid positions along grid directions against families of objects and lights, all pixels of small images for a family of cameras",
  "There is no test of these parts.",
  ["sprout/darkroom/coords", "sprout/darkroom/rays", "sprout/darkroom/colors", "sprout/darkroom/objects", "sprout/darkroom/intersects", "sprout/darkroom/lights", "sprout/darkroom/cameras", "sprout/darkroom/materials", "sprout/math/curve"], [("vector formulas", "sprout/darkroom/coords/vector.hpp"), ("curve blending", "sprout/math/curve/bezier.hpp")])
P("T01", "Type lists and index sequences compute the right lists",
  "Compile-time type-list operations and algorithms (push, pop, append, at, find, count, fold, transform, quantifiers, index sequences and ranges) compute exactly the list the corresponding operation on ordinary lists gives, for every list and index.",
  ["programs"], "all type lists up to a length bound over a small set of types, all indices and ranges",
  "Metaprograms are used by the tests only in passing.",
  ["sprout/type", "sprout/index_tuple", "sprout/tpp"], [("template recursion", "sprout/type")])
P("T02", "Type traits agree with the standard traits",
  "Each reimplemented or extended type trait gives the standard (or documented) answer for every type in a closed universe of type constructors.",
  ["programs"], "all types built from a set of base types by up to two type constructors",
  "No test instantiates the traits systematically.",
  ["sprout/type_traits"], [("trait definitions", "sprout/type_traits")])
P("C01", "Compile-time and run-time evaluation agree",
  "For every function usable in a constant expression, evaluation by the compiler and at run time give the same result on every explored input, in every supported language mode, and valid calls are accepted in constant expressions (no undefined behaviour, no non-constant step).",
  ["inputs", "configurations"], "tables over small exhaustive domains for every module, C++11, 14 and 17",
  "Tests evaluate a handful of literal calls at compile time.",
  ["sprout"], [("constexpr functions", "sprout/**")])
P("F01", "Function objects, binders and wrappers call what they were given",
  "Operator function objects, bind with any placeholder arrangement, negators, mem_fn/mem_fun, reference wrappers and the polymorphic forms call the wrapped operation with exactly the bound and supplied arguments in order, and return its result.",
  ["inputs", "programs"], "all operand values over a small alphabet, all placeholder arrangements up to arity three",
  "Tests use a few functors as predicates.",
  ["sprout/functional"], [("argument selection", "sprout/functional/bind")])
