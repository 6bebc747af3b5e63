CHECKS = {}
NOT_APPLICABLE = {}
def C(id, units, rule, note, **kw):
    CHECKS[id] = dict(units=units, rule=rule, note=note, **kw)

C("A01", [dict(src="a01.cpp")],
  "every sequence up to a length bound over 2-3 letters with every probe/pattern, longer ones with at most two deviations from a constant; per iterator category; C++11 and C++17",
  "lengths beyond the stated bounds and other element types are not enumerated; iterators are checked wrappers that report out-of-range access")
SEQ = "lengths beyond the stated bounds and other element types are not enumerated; iterators are checked wrappers that report out-of-range access"
C("A02", [dict(src="a02.cpp")],
  "every sorted (for the deciders: every) sequence up to a length bound, every probe, every pair of sorted sequences, every run boundary up to 70 elements; per iterator category; C++11 and C++17", SEQ)
C("A03", [dict(src="a03.cpp")],
  "every sequence up to a length bound, every value/predicate/cut, exactly sized destinations with guard cells; per iterator category; C++11 and C++17", SEQ)
C("A04", [dict(src="a04.cpp")],
  "every sequence up to a length bound, every cut, all permutations, breadth-first heap histories to closure, structured lengths across the internal cut-offs (6/30/1000 for sort, 15 for stable_sort)", SEQ)
C("A05", [dict(src="a05.cpp", tag="p%d" % i, defs=["PART=%d" % i], opt=["-O0"]) for i in range(1, 21)],
  "every source up to a length bound x every destination kind (array, partly filled string, sub_array window, empty and zero-sized, vector, front/back/positional insert iterator) x every predicate/value/cut; fixed:: and fit:: forms", SEQ)
C("A06", [dict(src="a06.cpp", tag="p%d" % i, defs=["PART=%d" % i], opt=["-O0"]) for i in range(1, 13)],
  "every range content up to a length bound x every range kind (const/non-const array, C array, sub-range, adapted range) x every algorithm with a range form", SEQ)
C("A07", [dict(src="a07.cpp", tag="p%d" % i, defs=["PART=%d" % i], opt=["-O0"]) for i in range(1, 9)],
  "every sequence up to a length bound x operations (associative, non-associative, non-commutative, type-changing) x iterator category x destination (separate, in place, arrays, windows, strings)", SEQ)
C("A08", [dict(src="a08.cpp")],
  "every path of answers of a small-range random source (cut off at a stated number of draws, cut paths counted), every size and window up to a bound", "the source is a stand-in with 2, 3, n or 12 values; sequences longer than the bound are not enumerated")
C("I01", [dict(src="i01.cpp", tag="p%d" % i, defs=["PART=%d" % i], std=(11, 17) if i < 7 else (17,)) for i in range(1, 8)],
  "every base sequence up to a length bound x every adaptor and parameter x iterator category of the base; at every position, pair of positions and distance the iterator requirements are checked; conversion and assignment from the adaptor over mutable to the one over const iterators at every position, accessors, member access", SEQ)
C("I02", [dict(src="i02.cpp", tag="p%d" % i, defs=["PART=%d" % i], opt=["-O1"] if i < 5 else ["-O0"], std=(11, 17) if i < 7 else (17,)) for i in range(1, 14)],
  "every base sequence up to a length bound x every adaptor and parameter x kind of base range; every ordered pair of adaptors from a set of 14; binary adaptors over every pair of sequences; adaptors applied to every part; copies and writes through", SEQ)
C("S01", [dict(src="s01.cpp"), dict(src="s01.cpp", tag="ptr", defs=["SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION"], std=(17,))],
  "every content of arrays up to size 4 (all pairs for comparison and swap), every window and window of a window of arrays of 3 and 5, breadth-first histories of a window over an array of 4 to closure, every pit and sized_pit", SEQ)
C("S02", [dict(src="s02.cpp", opt=["-O0"])],
  "every fixed:: and fit:: structural operation at every position and count on arrays of 0-5, every window of arrays of 1, 2 and 4 (by copy and by reference) and strings of capacity 1, 2 and 4 at every length; all edit histories of 9 operations to depth 3; tuples of 0-4", SEQ)
C("S03", [dict(src="s03.cpp"), dict(src="s03.cpp", tag="ptr", defs=["SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION"], std=(17,))],
  "breadth-first search to closure over every reachable content and stale bytes of strings of capacity 0-3 under every mutation (about 400 operations per state), compared with std::string; every text/needle/position of every search and comparison; every construction and concatenation", SEQ)
C("S04", [dict(src="s04.cpp"), dict(src="s04.cpp", tag="ptr", defs=["SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION"], std=(17,))],
  "every text and needle up to the stated lengths, every position and count, on buffers that end at an unmapped page, compared with std::string_view", SEQ)
C("S05", [dict(src="s05.cpp")],
  "every text up to 5 (numbers) or 6 (decimals) characters over the characters that matter in bases 0 2 8 10 16 36, every character code next to digits in every base, boundary families of every integer type in every base with prefixes and overflowing digits, every exponent -400..400 and digit strings to 60 digits; all 8-bit and boundary 16/32/64-bit values printed in 11 bases; floats at every power of two and ten with neighbours; oracle: the C library, buffers end at an unmapped page", "texts beyond the stated lengths; decimal floats are compared within 8 units in the last place (long double 2048: squarings of ten), printed floats within 16 epsilon; inf/nan/hexadecimal float spellings are outside the stated grammar")
C("X01", [dict(src="x01.cpp")],
  "every day of 1900-2100 (thorough 1601-2400) with a varying time, every second of a day, every date/time text; oracle timegm", "other years and out-of-range fields are not enumerated")
C("S06", [dict(src="s06.cpp")],
  "every string up to 8 characters over 2 (5-6 over 3) with every second string, every character and count including SIZE_MAX, in char, wchar_t and char16_t, compared with the C library; every memory function on every small block through every pointer type; every overlapping move inside 7 elements; sources and destinations end exactly at an unmapped page and are checked for writes before them", SEQ)
C("S07", [dict(src="s07.cpp")],
  "every char and char16_t, wchar_t codes to 0x11000 (thorough 0x110000) and both extremes, every one of the 4096 class sets with every char, every pair of chars for the case-insensitive comparisons; oracle: the C locale", SEQ)
C("B01", [dict(src="b01.cpp", opt=["-O1"])],
  "sizes 0-6: every set, every pair, every position and shift; 31 32 33 63 64 65 127 128 129 192 200: every one-run pattern with ends at the word boundaries with every position and shift, all pairs, two-run patterns reached by different routes; every one-run integer; every short text with every position and count; breadth-first histories to closure (1-6) or depth 6 (64, 65, 130); oracle std::bitset", SEQ)
C("B02", [dict(src="b02.cpp", opt=["-O1"]), dict(src="b02.cpp", tag="portable", opt=["-O1"], defs=["SPROUT_CONFIG_DISABLE_BUILTIN_BIT_OPERATION"])],
  "every 8- and 16-bit value with every position; every union of at most two runs of ones of the 32- and 64-bit types, and every one-run value and its neighbours with every position; with and without compiler builtins; oracle: the definitions on a vector of bits; the ends of the ranges as constant expressions", SEQ)
C("B03", [dict(src="b03.cpp", opt=["-O1"]), dict(src="b03.cpp", tag="big", defs=["MC_BIG"], std=(17,)), dict(src="b03.cpp", tag="pdp", defs=["MC_PDP"], std=(17,))],
  "every 16-bit value, every value of one byte in every place and every pair of bytes from {0 1 7f 80 ff} of 32- and 64-bit values, converted as on a little-, big- and PDP-endian host; every byte of every such value read and written; every start and jump of byte iterators over 0-3 elements of every width", SEQ)
C("V01", [dict(src="v01.cpp", opt=["-O1"])],
  "pairs of optionals of int, class and string over three values and of int references to three cells: breadth-first over every constructor, assignment, emplace, reset, swap, conversion and write, to closure; every observer, comparison, iterator, text and hash in every state; every short text read; construction as constant expressions", SEQ)
C("V02", [dict(src="v02.cpp", opt=["-O1"])],
  "pairs of variants over eight lists of one to five alternatives (with repeated types and a counting class), three values per alternative: breadth-first over every assignment, copy, move, swap and write to closure; in every state every index and type access (failing ones through the assertion handler), every visitor form, comparison, hash and text; constant expressions", SEQ)
C("V03", [dict(src="v03.cpp", tag="p%d" % i, defs=["PART=%d" % i], opt=["-O1"]) for i in range(1, 4)],
  "tuples of 0-4 elements of mixed types over three values: every pair compared (also across element types), every construction, conversion, assignment and swap from every kind of source (with a class that knows when it was moved from), every index of every tuple-like type, every push, pop, append, concatenation and flexible construction between all arities; pairs likewise; oracle: the sequence of values, std::tuple", SEQ)
C("V05", [dict(src="v05.cpp")],
  "every operator with every combination of tribool, bool and indeterminate operands (complete); every expression over three variables nested to depth 2 (thorough 3) under every assignment; every text up to 5 characters over the letters of six name sets and every prefix and one-letter change of a name, read and printed; oracle: Kleene's tables", "longer texts and deeper expressions are not enumerated")
C("V06", [dict(src="v06.cpp")],
  "all pairs of fractions with numerator and denominator up to 16 (thorough 40) and extreme values of int, long, long long, short and signed char; every mixed operation with every small and extreme integer; every text up to 5 characters over the characters of fractions; breadth-first histories of 13 operations to closure; oracle: fractions of 128-bit integers", "sums whose intermediate product leaves the type are not judged; other fractions are not enumerated")
C("V07", [dict(src="v07.cpp", tag="arith", defs=["PART=1"]), dict(src="v07.cpp", tag="fn", defs=["PART=2"], opt=["-O1"]), dict(src="v07.cpp", tag="portable", defs=["PART=2", "SLOPPY", "SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"], opt=["-O1"], std=(17,))],
  "all pairs of complex numbers with integer components up to 3 (thorough 5) in float, double and long double, with every mixed operand kind, compound form and aliasing; every text up to 6 (thorough 8) characters over the characters of complex numbers; 18 functions on all pairs of {0 .25 .5 1 1.5 2 3 inf} with both signs and NaN and on all pairs of multiples of 1/8 (thorough 1/32) up to 3; powers over all pairs of multiples of 1/2 up to 2; real-number overloads", SEQ)
C("V08", [dict(src="v08.cpp", tag="values", defs=["PART=1"], opt=["-O1"]), dict(src="v08.cpp", tag="selections", defs=["PART=2"], opt=["-O1"])],
  "all pairs of contents of up to 3 elements over 5 values (thorough 7) with every binary operator, every value form, compound form and aliasing; all contents of up to 5 elements over 3 values shifted and rotated by every distance up to twice the capacity and the extreme ones; two valarrays of capacity 3 through every history to closure; every slice within 7 elements, gslices of 1-4 dimensions, every mask and every index sequence up to 4 positions, read and written through every form; 27 functions element by element", SEQ)
C("V09", [dict(src="v09.cpp", opt=["-O1"]), dict(src="v09.cpp", tag="san", opt=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DNO_HISTORIES"], std=(17,))],
  "two lists over four items (thorough five), breadth-first over every insertion, range insertion, removal, unlink, assignment, move and swap at every position, to closure; every history of three operations over three items and of four (thorough five) over two; every way of writing an item; also under address and undefined-behaviour sanitizers", SEQ)
C("D01", [dict(src="d01.cpp", tag="md5", defs=["PART=1"], opt=["-O2"]), dict(src="d01.cpp", tag="sha1", defs=["PART=2"], opt=["-O2"]), dict(src="d01.cpp", tag="sums", defs=["PART=3"], opt=["-O2"]), dict(src="d01.cpp", tag="sha1text", defs=["PART=4"], opt=["-O1"], std=(17,)), dict(src="d01.cpp", tag="text", defs=["PART=5"], opt=["-O2"])],
  "MD5, SHA-1, sum8/16/32 and xor8: messages of every length up to 200 bytes (SHA-1 135; thorough 260) with several contents, all one-byte and a lattice of two-byte (thorough all) messages, every two-way split of 24 lengths around the block boundaries, three-way splits around them, constant, mutating and mixed feeding, reset, copies and running checksums; MD5 of every number of bits up to 530; texts of four character types as terminated text, string, range and literal; oracle: an independent implementation of RFC 1321 and FIPS 180-1 that first reproduces the published vectors", SEQ)
C("V10", [dict(src="v10.cpp", tag="values", defs=["PART=1"], opt=["-O1"]), dict(src="v10.cpp", tag="ptr", defs=["PART=1", "SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION"], opt=["-O1"], std=(17,)), dict(src="v10.cpp", tag="text", defs=["PART=2"], opt=["-O1"]), dict(src="v10.cpp", tag="names", defs=["PART=3", "SUB=1"], opt=["-O1"]), dict(src="v10.cpp", tag="wide", defs=["PART=3", "SUB=2"], opt=["-O1"], std=(17,))],
  "every byte position with every value over three patterns: all accessors, version, variant, nil, hash, printing in four character types and reading back; all pairs of 243 values one byte apart and all two-byte differences over extreme bytes compared; 16 valid spellings with every character replaced by every character (wide: every code up to 0x3ff), every insertion, deletion, transposition and prefix, all 64 dash and brace patterns, in four character types and five call forms, and extraction from streams with and without skipws; printing under every combination of adjustment, base and other flags, widths and fills; names of every length up to 200 bytes in several namespaces against reference digests; 128 single-bit changes of the random source over three bases, 3000 seeds", SEQ)
C("V11", [dict(src="v11.cpp", tag="std", defs=["PART=1"], opt=["-O1"]), dict(src="v11.cpp", tag="ext", defs=["PART=2"], opt=["-O1"])],
  "all pairs of the values of 45 families (integers of every type, floats with both zeros and the extremes, enums, pointers, C and library arrays, strings of several capacities and character types, views, tuples, pairs, optionals, variants, holders, pits, sub_arrays over every window, rationals, complexes, quaternions, bitsets of 1 to 129 bits, std pairs, arrays, complexes and strings, tribools, exempt_ptrs, division results, valarrays, npos) compared with a reference key and hashed in every form; all sequences up to three elements folded; every chained comparison of up to four operands",
  SEQ)
C("M04", [dict(src="m04.cpp", opt=["-O1"])],
  "all quaternions with components -2..3 in float, double, long double and int: every accessor, constructor, unary function and mixed operation with all small reals and complexes; all pairs with components -1..1 (thorough -2..2) and single large components, every operator and compound form, against the multiplication table of the units in long double; powers -6..9 and scaled magnitudes; polar forms on a grid of angles; every textual form and every truncation and corruption of it",
  SEQ)
C("M01", [dict(src="m01.cpp", opt=["-O1"]), dict(src="m01.cpp", tag="portable", opt=["-O1"], defs=["PART=2", "SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"], std=(17,)), dict(src="m01.cpp", tag="noBuiltin", opt=["-O1"], defs=["PART=3", "SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION", "SPROUT_CONFIG_DISABLE_BUILTIN_COPYSIGN_FUNCTION"], std=(17,)), dict(src="m01.cpp", tag="trap", opt=["-O1", "-fsanitize=undefined,float-cast-overflow", "-fsanitize-trap=all"], defs=["PART=2", "SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"], std=(17,))],
  "every function of the property on: float upper halves x 5 low halves (all signs and exponents), every double exponent and spread long double exponents with mantissa families around each bit, 142 boundary values per type alone, in all pairs and scaled by 80 boundary shifts, integers -300..300 with divisors -9..9; bit-exact comparison with libm (any NaN equals any NaN)",
  SEQ)
C("M03", [dict(src="m03.cpp", opt=["-O1"]), dict(src="m03.cpp", tag="trap", opt=["-O1", "-fsanitize=undefined", "-fsanitize-trap=all"], std=(17,))],
  "gcd, lcm, saturating plus and multiplies on all pairs of 8-bit values and of small integers and of a boundary family of every wider type; powers-of-two rounding on all 8- and 16-bit values and boundary families; div families on all boundary pairs; digit counts in bases 2..16, compile-time powers to the limit of the type, every entry of the factorial and Bernoulli tables; against 128-bit integer and 113-bit floating arithmetic",
  SEQ)
C("M05", [dict(src="m05.cpp", tag="cxx17", std=(17,)), dict(src="m05.cpp", tag="cxx11", std=(11,)), dict(src="m05.cpp", tag="portable", std=(17,), defs=["SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"])], "long-double evaluation of the defining sums; pointwise magnitudes, phases and wave formulas; unwritten elements keep their markers", SEQ)
C("M02", [dict(src="m02.cpp", tag="builtin", std=(17,), opt=["-O1"], flags=["-fext-numeric-literals"], libs=["-lquadmath"]), dict(src="m02.cpp", tag="portable", std=(17,), opt=["-O1"], flags=["-fext-numeric-literals"], libs=["-lquadmath"], defs=["SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"])], "26 unary functions on every exponent of the type (a lattice of exponents for the wide types in quick) with up to 24 (thorough 64) mantissas, both signs, the neighbours of powers of two and 800 multiples of 1/8 and of pi/4, in float, double and long double; pow, hypot, atan2 and log_a on all pairs of about 150 (thorough 300) values; Annex F special values alone and in all pairs of 34; every mixture of argument types on small grids; every function at five points in a constant expression; 25 constants correctly rounded; references in 113-bit arithmetic; with and without the compiler's builtins", SEQ)
C("R01", [dict(src="r01.cpp", tag="congruential", defs=["PART=1"], opt=["-O1"]), dict(src="r01.cpp", tag="mt", defs=["PART=2"], opt=["-O1"]), dict(src="r01.cpp", tag="twisters", defs=["PART=3"], opt=["-O1"]), dict(src="r01.cpp", tag="small", defs=["PART=4"], opt=["-O1"]), dict(src="r01.cpp", tag="seeding", defs=["PART=5"], opt=["-O1"])],
  "every predefined engine from a family of boundary seeds for a prefix covering several state refills; all histories of draw, constant draw, copy, discard, save/restore to a depth; all congruential, inversive and feedback engines over small moduli, all states; all seed sequences of small lengths; against Boost and the standard library; both language modes", SEQ)
C("R02", [dict(src="r02.cpp", tag="ints", defs=["PART=1"], opt=["-O1"]), dict(src="r02.cpp", tag="wide", defs=["PART=5"], opt=["-O1"]), dict(src="r02.cpp", tag="reals", defs=["PART=2"], opt=["-O1"]), dict(src="r02.cpp", tag="counts", defs=["PART=3"], opt=["-O1"]), dict(src="r02.cpp", tag="normal", defs=["PART=4"], opt=["-O1"])],
  "the full choice tree of scripted sources (ranges 0..1, 0..2, 1..6, 3..7, -3..3, bytes) to a depth for every integer distribution over all small ranges, extreme ranges and powers; boundary answers of 16-, 32- and 64-bit and real sources; real, geometric, Poisson, binomial and normal distributions on all answers of byte sources and boundary answers next to the source's maximum; mutable and constant engines side by side, against exact proportions, defining formulas and Boost; all parameter pairs, text and histories of variate_generator", SEQ)
C("W01", [dict(src="w01.cpp", tag=str(p), defs=["PART=%d" % p], opt=["-O0"], std=(14, 17)) for p in (1, 5, 6, 2, 3, 4, 7)],
  "case analysis of every parser expression (all forms of the operators and directives up to two levels over a set of terminals) on every input text up to a length bound, compared with an independent recogniser for parsing expression grammars that also computes the attribute",
  SEQ)
C("W02", [dict(src="w02.cpp", tag=str(p), defs=["PART=%d" % p]) for p in (0, 1, 2)],
  "every program up to a length bound over the eight commands and a comment, run by the interpreter and by a direct interpreter of the language definition (programs that do not end within a step bound are left out); every sequence of notation pieces up to a length bound",
  SEQ)
C("F01", [dict(src="f01.cpp", tag=str(p), defs=["PART=%d" % p], opt=["-O0"], std=(11, 17)) for p in range(10)],
  "every operator function object (typed, transparent, named) on symbolic terms and all small operands; every truth table for negators, equivalence and the two-argument binders; every arrangement of eight kinds of bound argument (placeholders, values, three reference wrappers, nested bind) up to arity three called with lvalues, constants and rvalues, compared with std::bind; every tail placeholder arrangement listed, for every argument count",
  SEQ)
C("W03", [dict(src="w03.cpp", opt=["-O1"]), dict(src="w03.cpp", tag="portable", opt=["-O1"], std=(17,), defs=["SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"])],
  "all pairs of vectors with integer components up to 2 (thorough 3) in three precisions; all colours over five levels in pairs and every rounding step of the byte conversion; all sets of 3 to 6 control points over a grid at thirteen parameters, against de Casteljau's and Hermite's forms; every ray from 125 positions along 124 directions (thorough 343 and 342) against spheres, planes of every direction and face, 60 triangles and a scene of three objects, against independent intersection formulas (near-tangent rays left out); the same rays lit by eight lights with shadows; every pixel of nine image sizes for 144 cameras; plaid, bilinear and textured patterns on a grid",
  SEQ)
C("T01", [dict(src="t01.cpp", tag=str(p), defs=["PART=%d" % p], opt=["-O0", "-ftemplate-depth=2000"], std=(11, 17)) for p in range(4)],
  "every type list over two types up to length seven (queries and quantifiers) and over three types up to length four (edits, folds, transformations) in five list representations; every pair of short lists joined; every sorted list by counts with every searched value; every index range over a window of first, last and step; compared with the same operation on ordinary vectors",
  SEQ)
C("T02", [dict(src="t02.cpp", tag=str(p), defs=["PART=%d" % p], opt=["-O0"], std=(14, 17)) for p in range(5)],
  "all types reached from the base types by one or two type constructors (unary category, property and transformation traits), all ordered pairs of fifty types (relations, assignability, constructibility, common type), all pairs of operand types for every operator detection trait, call signatures for the invocation traits; compared with the standard traits or with the written-out expression",
  SEQ)
C("C01", [dict(src="c01.cpp", tag=str(p), defs=["PART=%d" % p], opt=["-O0", "-fconstexpr-depth=2000"], std=(11, 17) if p != 2 else (14, 17)) for p in range(9)]
  + [dict(src="c01.cpp", tag="portable%d" % p, defs=["PART=%d" % p, "SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION"], opt=["-O0", "-fconstexpr-depth=2000"], std=(11, 17)) for p in (5, 6)]
  + [dict(src="c01.cpp", tag="clang%d" % p, cc="clang++", defs=["PART=%d" % p], opt=["-O0", "-fconstexpr-depth=2000", "-fconstexpr-steps=100000000"], std=(11,) if p != 2 else (17,)) for p in range(9)],
  "every listed expression is evaluated by the compiler on every input of its domain (all sequences over three values up to length four, all sorted ones, all pairs of short ones, all texts over an alphabet, all small numbers), which also has the constant evaluator judge every step of every execution for undefined behaviour and for steps that cannot be constant, and again at run time; the two tables are compared entry by entry, in several language modes and by two compilers; a program that does not compile is a violation",
  SEQ)
