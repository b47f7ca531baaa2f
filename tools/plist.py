"""The properties, and what decides each (see tools/gen.py)."""
P = []
NA = []


def p(id, title, statement, quant, why, files, mech, note, level="proof", over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note,
                  level=level, over=list(over)))


def na(id, title, statement, quant, why, files, mech, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech,
                   reason=reason, over=list(over)))


I = "include/obake/"
SHIM = " mp++ is replaced by an assumed contract (exact integers)."
p("P01", "Packing a vector of integers is reversible and injective",
  "Packing n integers that lie within the limits for size n into one machine integer and unpacking the result yields the same integers in the same order. The packed value is the positional sum of the values, lies within the packed limits, and unpacking any value within the packed limits and packing it again yields that value.",
  "every vector within the limits, every size for which limits exist, all four packable integer types",
  "the tests pack random vectors and a few boundary values; the round trip must hold for every vector of every size",
  [I + "kpack.hpp", "src/kpack.cpp"],
  [("kpacker::operator<<", I + "kpack.hpp"), ("kunpacker::operator>>", I + "kpack.hpp"), ("limit tables", "src/kpack.cpp")],
  "For all inputs; every size of every packable type is a separate proof instance.")
p("P02", "Packing and unpacking reject exactly what does not fit",
  "Packing throws overflow_error for a value outside the limits of the declared size, out_of_range when more values than declared are pushed, and accepts everything else; unpacking a value outside the packed limits throws overflow_error and reading past the declared size throws out_of_range. Sizes above the maximum are rejected with overflow_error. The published limits, deltas and packed limits of every size are consistent with each other and free of machine overflow.",
  "every value, every declared size, every number of pushes and reads, all packable types",
  "tests probe a few values next to the limits; acceptance must coincide with the limits for all values and sizes",
  [I + "kpack.hpp", "src/kpack.cpp"],
  [("kpacker constructor and operator<<", I + "kpack.hpp"), ("kunpacker constructor and operator>>", I + "kpack.hpp"),
   ("kpack_data tables", "src/kpack.cpp")],
  "For all inputs; the tables are checked entry by entry.")
p("P03", "Checked integer addition and subtraction are exact or throw",
  "The checked addition and subtraction of two integers of the same type return the exact mathematical result when it is representable and throw overflow_error otherwise, with or without compiler overflow builtins. No undefined behaviour occurs.",
  "every pair of values of every integral type of 8 to 128 bits, both implementations",
  "tests sample random pairs; the guard must be right on all pairs, including the generic fallback that is never compiled by the tests",
  [I + "detail/safe_integral_arith.hpp"],
  [("safe_int_add / safe_int_sub", I + "detail/safe_integral_arith.hpp")],
  "For all inputs, for both the builtin and the fallback implementation.")
p("P04", "Integers and characters print as exact decimal text",
  "Converting an integer of any width, including 128-bit ones, to text yields its canonical decimal representation: optional minus sign, no leading zeros, exact digits, for every value including the minimum. Streaming a 128-bit integer writes the same text.",
  "every value of every integral type that can be printed, 128-bit included",
  "tests print a handful of values; the digit loop must be right for each of the 2^128 values",
  [I + "detail/to_string.hpp", "src/detail/to_string.cpp"],
  [("to_string overloads", "src/detail/to_string.cpp"), ("128-bit stream insertion", "src/detail/to_string.cpp")],
  "For all inputs. std::to_string of the standard widths is an assumed contract (exact decimal).")
p("P05", "Numeric conversions preserve the value or report failure",
  "A safe conversion between integral types, and between machine integers and multiprecision integers, succeeds exactly when the target type can represent the value, and then yields that value; otherwise it reports failure without changing the destination's meaning (safe_cast throws safe_cast_failure naming the problem).",
  "every value of every pair of integral source and target types",
  "tests try a few values per pair of types; range checks must hold at every boundary of every pair",
  [I + "math/safe_cast.hpp", I + "math/safe_convert.hpp"],
  [("safe_convert implementations", I + "math/safe_convert.hpp"), ("safe_cast", I + "math/safe_cast.hpp")],
  "For all inputs." + SHIM)
p("P06", "Merging two symbol sets is exact and yields correct insertion maps",
  "Merging two symbol sets yields the sorted union. For each input set, the accompanying insertion map tells exactly which symbols of the union have to be inserted in front of which position of that set, so that applying it reproduces the union.",
  "every pair of symbol sets",
  "tests merge a few literal sets; every interleaving of the two sets has to give consistent maps",
  [I + "symbols.hpp", "src/symbols.cpp"], [("merge_symbol_sets", "src/symbols.cpp")],
  "Bounded: every pair of subsets of at most 5 (thorough: 6) symbols; the algorithm depends on the symbols only through their order.",
  level="other")
p("P07", "Locating symbols of a set or map within a symbol set is exact",
  "Intersecting a set, or a map keyed by symbols, with a symbol set yields exactly the positions, in the symbol set, of the common symbols, in increasing order, with the mapped values carried over unchanged. Symbols that are absent are ignored, and printing a symbol set lists exactly its members in order.",
  "every pair of a symbol set and a set or map of symbols",
  "tests use a few literal sets; positions must be right for every pair of sets",
  [I + "symbols.hpp", "src/symbols.cpp"],
  [("ss_intersect_idx", "src/symbols.cpp"), ("sm_intersect_idx", I + "symbols.hpp")],
  "Bounded: every pair of subsets of at most 5 (thorough: 6) symbols.", level="other")
MF = [I + "polynomials/packed_monomial.hpp", "src/polynomials/packed_monomial.cpp",
      I + "polynomials/d_packed_monomial.hpp", "src/polynomials/d_packed_monomial.cpp"]
MQ = "every monomial in every number of variables, both monomial types, 32 and 64 bit, signed and unsigned exponents"
MN = (" packed_monomial: for all exponents and every number of variables the type can hold. d_packed_monomial: for all "
      "exponents, instances (i32,1) (u32,3) (i64,2) (i64,8) (u64,1) (u64,4) with at most 2*PSize+1 variables, "
      "counted separately as bounded." + SHIM)
p("P08", "Monomials are determined by their exponents",
  "Constructing a monomial from a range of exponents stores exactly these exponents and throws overflow_error exactly when one of them is outside the limits; constructing it from a symbol set gives the unit monomial. Two monomials are equal exactly when all their exponents are, equal monomials have equal hashes, a monomial is one exactly when all exponents vanish and is never zero. Compatibility with a symbol set holds exactly for encodings of as many exponents as there are symbols.",
  MQ, "tests build random monomials; equality and compatibility are statements about all encodings",
  MF, [("constructors", MF[0]), ("key_is_compatible, key_is_one, equality, hash", MF[1])], "Mixed." + MN)
p("P09", "Multiplying monomials adds exponents and hashes homomorphically",
  "When the exponent sums lie within the limits, the product of two monomials has exactly the sums as its exponents, is compatible with the same symbol set, and leaves the factors unchanged, even when written over a factor. The hash of the product is the (wrapping) sum of the hashes of the factors.",
  MQ, "tests multiply random monomials; the carry-free addition of the encodings must hold for all of them",
  MF, [("monomial_mul", MF[0]), ("hash", MF[0])], "Mixed." + MN)
p("P10", "The monomial overflow check is exact",
  "The overflow check on two ranges of monomials succeeds exactly when every product of a monomial of the first range and one of the second has all its exponents within the limits (and, for dynamically packed monomials, a total degree within the exponent type). Empty ranges never overflow; the parallel and the serial code path agree.",
  MQ + ", every pair of ranges", "tests use a few ranges near the limits, and the parallel branch only with large random ranges",
  MF, [("monomial_range_overflow_check", MF[0])],
  "Ranges: bounded to 2 elements, and 5001 elements with 2 arbitrary ones for the parallel branch (TBB replaced by an assumed contract: pieces cover the range, joined in order)." + MN, level="other")
p("P11", "Degrees and partial degrees are exact sums",
  "The degree of a monomial is the exact sum of its exponents, and its partial degree is the exact sum of the exponents at the given positions. A sum that the exponent type cannot represent is reported as overflow_error, never as a wrapped value.",
  MQ + ", every set of positions", "tests sample monomials; wrapping would show only for rare sums",
  MF, [("key_degree, key_p_degree", MF[1])], "Mixed; sets of positions beyond 4 variables are represented by 7 shapes (bounded)." + MN)
p("P12", "Differentiating and integrating monomials follow the power rule",
  "Differentiating a monomial yields its exponent in the chosen variable as coefficient and decreases only that exponent by one; a zero exponent gives coefficient zero. Integrating yields the increased exponent as divisor and increases only that exponent; exponent minus one is rejected with domain_error. A resulting exponent outside the limits is rejected with overflow_error.",
  MQ + ", every variable", "tests use a few exponents; limits and minus one must be handled in every variable position",
  MF, [("monomial_diff, monomial_integrate", MF[1])], "Bounded in the choice of the variable beyond 4 variables (first, middle, last two)." + MN, level="other")
p("P13", "Raising a monomial to a power multiplies the exponents",
  "The power of a monomial has every exponent multiplied by the power; overflow_error is thrown exactly when a product is outside the limits. Machine and multiprecision powers behave the same.",
  MQ + ", every integral power", "tests use small powers; the overflow guards must hold for all",
  MF, [("monomial_pow", MF[0])], "Bounded: at most 3 (thorough: 5) variables, for all exponents and all 64-bit powers." + MN, level="other")
p("P14", "Evaluating and substituting monomials use each variable exactly once",
  "Evaluating a monomial multiplies, starting from one, each variable's value raised once to that variable's exponent. Substituting a subset of the variables yields the product over exactly these variables and a monomial in which their exponents are zero and all others are unchanged.",
  MQ + ", every assignment", "tests evaluate a few monomials at numbers; a swapped or skipped variable must be impossible in every position",
  MF, [("key_evaluate, monomial_subs", MF[0])],
  "Values range over an abstract commutative monoid, so the result holds for all value types. Substituted subsets beyond 4 variables are represented by 7 shapes (bounded)." + MN)
p("P15", "Extending and trimming a monomial's symbols keeps its meaning",
  "Extending a monomial to a larger symbol set inserts zero exponents exactly at the new symbols and keeps all others, or throws overflow_error when an exponent exceeds the limits of the larger set. Trimming removes exactly the selected positions, and the identification of trimmable symbols clears exactly the flags of the symbols with non-zero exponents.",
  MQ + ", every insertion map and set of trimmed positions", "tests use a few literal maps; positions must be right for every map",
  MF, [("key_merge_symbols, key_trim, key_trim_identify", MF[1])],
  "Sets of positions: every subset up to 4 (thorough: 6) variables, 7 shapes beyond (bounded)." + MN, level="other")
SE = [I + "series.hpp", "src/series.cpp"]
SB = (" The terms are symbolic (any keys, any coefficients of a ring with zero divisors, any coefficient operation may "
      "throw); their number is bounded: at most 2 terms and 4 segments per series (3 terms in both operands). "
      "boost::unordered_flat_map is an assumed contract: arbitrary iteration order, insertion invalidates iterators.")
SQ = "every series, key and coefficient (symbolic), segmented or not, every value category of the arguments"
p("P19", "A series is a finite map from keys to non-zero coefficients",
  "Inserting a term adds (or subtracts) its coefficient to the coefficient stored under an equal key, never leaves a zero coefficient, zero key or duplicate key behind, and rejects incompatible keys with invalid_argument. Lookup, size and iteration see exactly the stored terms, also after copying, moving, assigning, swapping, clearing and converting to another coefficient type, and exactly the constant series convert to and from scalars. Exceptions thrown by coefficients leave the series valid.",
  SQ, "tests insert small integers into tables; the invariant must survive every sequence of keys, coefficients that cancel, and exceptions",
  SE, [("series::add_term, series_add_term_table", SE[0]), ("find, iteration, set_n_segments, set_symbol_set", SE[0]),
       ("series constructors and conversions", SE[0])], "Bounded." + SB, level="other", over=("inputs", "histories"))
p("P20", "Series sums, differences and scalar operations act coefficient by coefficient",
  "The sum and difference of two series over the same symbols have, at every key, the sum and difference of the coefficients, and contain no zero terms; so do sums and differences with scalars (at the unit key), negation, and products and quotients with scalars. The in-place forms give the same result. Arguments passed as constants are unchanged, arguments passed as rvalues or hit by an exception stay valid, and using the same series as both operands is well defined.",
  SQ, "tests add small polynomials; cancellation, self-assignment, moved-from operands and exceptions need specific inputs",
  SE, [("series_default_addsub_impl, series_default_in_place_addsub_impl", SE[0]),
       ("series_default_mul_impl, series_default_div_impl, negate", SE[0])], "Bounded." + SB, level="other", over=("inputs", "histories"))
p("P21", "Operands with different symbols or coefficient types are unified first",
  "When the operands of an addition or subtraction (also in place) have different symbol sets, the result is over the union of the symbols and equals the result of first extending both operands with zero exponents. When their coefficient types differ, every coefficient is first converted to the coefficient type of the result, and terms whose converted coefficient is zero do not appear. Operands are not modified unless moved.",
  SQ + ", every relation between the symbol sets", "tests use a few literal polynomials; every interleaving of symbol sets and vanishing conversions must be handled",
  SE, [("series_sym_extender", SE[0]), ("series_default_addsub_impl", SE[0]), ("series generic constructor", SE[0])],
  "Bounded; up to 3 symbols." + SB, level="other")
p("P22", "Series comparison is mathematical equality",
  "Two series compare equal exactly when, after extending both to the union of their symbols, they have the same coefficient at every key and equal tags, regardless of segmentation, insertion order and coefficient type. A series equals a scalar exactly when it is that constant. Inequality is the negation of equality and comparison changes neither operand.",
  SQ, "tests compare a few polynomials; a comparison that ignores some term or symbol fails only on specific pairs",
  SE, [("series_equal_to, series_cmp_identical_ss", SE[0])], "Bounded; up to 3 symbols." + SB, level="other")
PO = [I + "polynomials/polynomial.hpp", I + "series.hpp"]
PB = (" The terms are symbolic (any exponents, any coefficients with an arbitrary commutative product of the original "
      "coefficients); their number is bounded: at most 3 terms per factor, 4 in both, at most 16 segments. The parallel "
      "loops are run in sequence (TBB and boost::unordered_flat_set are assumed contracts).")
PQ = "every polynomial (symbolic monomials and coefficients), every multiplication algorithm and segmentation"
p("P23", "The product of polynomials is exact",
  "The product of two polynomials has, at every monomial, the sum of the products of all pairs of coefficients whose monomials multiply to it, contains no zero terms, and is over the union of the symbols; the serial and the segmented parallel algorithm give this same result. If a product of two monomials is outside the limits, overflow_error is thrown. Factors passed as constants are unchanged, and an exception thrown by a coefficient leaves both factors valid.",
  PQ + ", value category and combination of symbol sets and coefficient types", "tests multiply a few sparse and dense polynomials; a pair of terms lost or counted twice by the segmentation needs a specific distribution of hashes",
  PO, [("poly_mul_impl_simple, poly_mul_impl_mt_hm", PO[0]), ("poly_mul_impl_identical_ss, poly_mul_impl_switch", PO[0])],
  "Bounded." + PB, level="other", over=("inputs", "histories"))
p("P24", "Truncated products keep exactly the terms within the limit",
  "The product truncated to a total or partial degree limit consists of exactly the terms of pairs of factors whose degrees (in the selected symbols) add up to at most the limit, with the same coefficients as in the full product. This holds for every limit, also negative ones and those that no pair satisfies, for the serial and the parallel algorithm, and for factors over different symbols.",
  PQ + ", every limit and set of symbols", "tests compare a few truncated products; the sorted early exits in the loops are wrong only for specific degrees and segments",
  PO, [("truncated_mul", PO[0]), ("poly_mul_impl_mt_hm, poly_mul_impl_simple with truncation", PO[0])],
  "Bounded." + PB, level="other")
CB = (" The terms are symbolic; their number is bounded (at most 3 terms per series, at most 3 symbols). Monomials and "
      "coefficients are abstract: their own operations are any functions (exponents of differentiated monomials up to 3).")
p("P25", "Derivatives and integrals of polynomials are exact",
  "diff(p, s) is the sum, over the terms c*m of p, of diff(c, s)*m and c*dm/ds (only the former when s is not a symbol of p), over the symbols of p. integrate(p, s) is the sum of c/(n+1)*s^(n+1)*..., over the symbols of p and s, and invalid_argument is thrown exactly if some coefficient depends on s. Neither leaves zero terms behind, whether the derivatives and quotients of coefficients have the type of the coefficients or another one. The argument is unchanged if passed as a constant, also when a coefficient throws.",
  "every polynomial (symbolic monomials and coefficients), every symbol present or absent, every value category", "tests differentiate a few polynomials with integer coefficients, whose derivative is zero; cancellation between the two parts of the rule needs coefficients that depend on the symbol",
  [PO[0], I + "math/diff.hpp", I + "math/integrate.hpp"], [("diff, poly_diff_impl", PO[0]), ("integrate, poly_integrate_impl", PO[0])],
  "Bounded." + CB, level="other")
p("P26", "Degrees, truncation and filtering are exact",
  "The (partial) degree of a series is the largest (partial) degree of its terms, where the degrees of key and coefficient are added (overflow_error if the sum does not fit), and zero for an empty series. truncate_degree and truncate_p_degree keep exactly the terms whose degree is at most the limit. filter and filtered keep exactly the terms that satisfy the predicate, and the symbols and the tag; filtered and the degrees leave their argument unchanged; if the predicate throws, the series stays valid.",
  "every series (symbolic keys and coefficients), every set of symbols, limit and predicate", "tests use a few series and limits; a wrong comparison shows only for specific ties, signs and orders of the terms",
  [SE[0], PO[0]], [("series_default_degree_impl, series_default_p_degree_impl", SE[0]), ("filter, filtered", SE[0]), ("truncate_degree, truncate_p_degree", PO[0])],
  "Bounded." + CB, level="other")
p("P27", "Trimming and adding symbols preserve the meaning of a series",
  "trim(s) is over exactly those symbols of s in which some key of s has a non-zero exponent, and has the terms of s with trimmed keys and coefficients. add_symbols(s, ss) is over the union of the symbols and has the terms of s, with zero exponents for the new symbols. Both keep the tag, contain no zero terms and leave the argument unchanged, also when a coefficient throws.",
  "every series (symbolic keys and coefficients) and set of symbols", "tests trim a few series; a symbol dropped or kept wrongly depends on the exponents of all terms",
  [SE[0]], [("trim, series_default_trim_impl", SE[0]), ("add_symbols_impl", SE[0])],
  "Bounded." + CB, level="other")
p("P28", "Evaluation and substitution are homomorphic",
  "evaluate(s, map) is the sum over the terms of the product of the values of key and coefficient, each evaluated with exactly the values of the map for the symbols of s; invalid_argument is thrown exactly if a symbol of s has no value; other entries of the map are ignored. subs(p, map) is the sum over the terms of the substituted coefficient times the substituted part of the monomial times the rest of the monomial. The argument is unchanged, also when a coefficient throws.",
  "every series (symbolic keys and coefficients) and map from symbols to symbolic values", "tests evaluate a few polynomials with complete maps; the positions of the symbols in map and series differ in general",
  [SE[0], PO[0], "src/symbols.cpp", I + "symbols.hpp"], [("evaluate, series_default_evaluate_impl", SE[0]), ("subs, poly_subs_impl", PO[0]), ("sm_intersect_idx", I + "symbols.hpp")],
  "Bounded." + CB, level="other")
p("P29", "Powers are exact and independent of the cache",
  "The power of a series that is a single coefficient (or empty) is the power of that coefficient; that of a polynomial with one term is the power of coefficient and monomial; otherwise the zeroth power is one, natural powers are the repeated product, and invalid_argument is thrown for any other exponent. Results do not depend on which powers of which series (also of series with equal hash) have been computed before, on clearing the cache, or on an earlier power whose coefficients threw; the lock of the cache is always released.",
  "every polynomial (symbolic coefficients), exponent (symbolic where the result is not a repeated product, up to 2 otherwise) and history of up to three powers", "tests compute powers in one order; stale or confused cache entries need a specific history and equal hashes",
  [SE[0], PO[0], SE[1]], [("series_pow_from_cache, pow", SE[0]), ("pow_poly_impl", PO[0]), ("get_series_pow_map, clear_series_pow_map", SE[1])],
  "Bounded." + CB + " Monomials of the repeated products are concrete.", level="other", over=("inputs", "histories"))
WO = [I + "power_series/power_series.hpp", I + "polynomials/polynomial.hpp", I + "series.hpp"]
p("P30", "Truncated power series contain exactly the terms within their truncation",
  "Setting a truncation records it and removes exactly the terms whose (partial) degree exceeds the limit; generators are made with exactly the requested symbols and truncation; scaling, copying, filtering and extending with symbols keep the truncation. The sum, difference or product of two power series (also in place, with moved operands, over different symbols, with coefficients) has the truncation of the truncated operand and consists of exactly the terms of the exact result within it; if both are truncated differently, invalid_argument is thrown and no operand changes. Two power series are equal exactly if their terms and truncations are, and equal truncations have equal hashes.",
  "every power series (symbolic monomials and coefficients), every pair of truncations with symbolic limits, value category and combination of symbol sets", "tests use a few limits on a few series; a term kept beyond the limit, or a truncation lost, needs a specific combination of truncations, value categories and degrees",
  WO, [("set_truncation, truncate, unset_truncation", WO[0]), ("series_add, series_sub, series_in_place_add, series_in_place_sub", WO[0]),
       ("series_mul", WO[0]), ("make_p_series, make_p_series_t, make_p_series_p", WO[0]), ("tag, trunc_t_hasher", WO[0])],
  "Bounded." + CB, level="other")
p("P31", "Powers, derivatives, integrals and substitutions of power series are truncated",
  "The power, derivative and integral of a power series consists of exactly the terms of the exact polynomial result that are within the truncation of the power series, and has that truncation (a derivative, integral or substitution without terms may have none if its coefficients have another type or vanish); powers do not depend on whether the same terms with another truncation have been exponentiated before. Substituting values for symbols gives the sum of the substituted terms, with the truncation. The argument is unchanged.",
  "every power series (symbolic monomials and coefficients; fixed monomials for repeated products), every truncation with a symbolic limit", "tests cover one limit per operation; integration raises degrees, so terms at the limit must vanish, for every type of coefficients",
  WO, [("pow, subs, diff, integrate", WO[0]), ("poly_integrate_impl, poly_diff_impl, poly_subs_impl", WO[1])],
  "Bounded." + CB, level="other", over=("inputs", "histories"))
p("P32", "Serialisation round-trips",
  "Saving a set of symbols, a monomial, a series, a polynomial or a power series into an archive and loading it restores an equal object (terms, symbols, tag and truncation), whatever the object that is loaded into contained before and however the terms are segmented. Loading reads exactly the values that were saved, with the types they were saved with, so further objects in the same archive can be read. Saving changes nothing, and if the archive or a coefficient fails, the exception is propagated and the loaded series stays valid.",
  "every packed monomial (unbounded); every series of symbolic terms, segmentation and previous content; every position at which the archive fails", "tests save a few objects into fresh ones; leftovers of the previous content and empty tables need specific histories",
  [SE[0], I + "symbols.hpp", I + "power_series/power_series.hpp", I + "polynomials/packed_monomial.hpp", I + "polynomials/d_packed_monomial.hpp"],
  [("series::save, series::load", SE[0]), ("save, load of symbol_set", I + "symbols.hpp"), ("save, load of trunc_t and tag", I + "power_series/power_series.hpp")],
  "packed_monomial: unbounded. Series: bounded." + CB + " The archive is abstract: a sequence of typed values (Boost.Serialization's archives are not verified).", level="other", over=("inputs", "histories"))
p("P33", "Printed and TeX forms denote the object",
  "Read back as an expression, the plain and the TeX form of a monomial, polynomial (also with polynomials as coefficients, to any depth) or power series denotes exactly that object, also when it is printed as the coefficient of another series and hence multiplied by what follows; unit coefficients and exponents are not printed, an empty series is 0, and the unit monomial is 1. At most 50 terms are printed, each once, followed by an ellipsis exactly if there are more. The header shows rank, symbols, number of terms and truncation, and the TeX form of a power series ends with its truncation; rationals and 128-bit integers are printed exactly.",
  "every class of coefficients and exponents (zero, one, minus one, symbolic of either sign), nesting of up to three series", "tests compare a few texts; lost brackets, signs and fractions need specific combinations of nested terms, unit keys and negative exponents",
  [SE[0], SE[1], I + "polynomials/packed_monomial.hpp", "src/polynomials/packed_monomial.cpp", I + "polynomials/d_packed_monomial.hpp", I + "power_series/power_series.hpp", I + "tex_stream_insert.hpp"],
  [("series_stream_terms_impl, series_stream_insert_impl", SE[0]), ("series_stream_single_term", SE[1]), ("packed_monomial_stream_insert, packed_monomial_tex_stream_insert", "src/polynomials/packed_monomial.cpp"),
   ("key_stream_insert, key_tex_stream_insert", I + "polynomials/d_packed_monomial.hpp"), ("tex_stream_insert, operator<< of tag", I + "power_series/power_series.hpp")],
  "Bounded." + CB + " Streams, fmt::format() and the decimal form of mppp::integer are assumed contracts.", level="other")
p("P34", "Generators are exactly the requested symbols",
  "make_polynomials(symbols, names...) returns, for each name in the given order, the polynomial over exactly the given symbols with the single term 1*name^1; make_polynomials(names...) returns each generator over its own symbol only. invalid_argument is thrown exactly if some name is not in the symbol set. Names may be given as strings, literals or views, repeated, and in any order, and the result does not depend on which other names are requested with it.",
  "every symbol set and list of names up to the stated bound, every name of at most two characters, for abstract, packed and dynamically packed monomials", "tests make a few generators; a stale exponent, a wrong position or a name that only resembles a symbol needs a specific combination",
  [PO[0]], [("make_polynomials_impl", PO[0])],
  "Bounded: three symbols, up to three names, names of at most two symbolic characters.", level="other")
p("P35", "Functions of plain numbers, and the precedence of implementations",
  "For integers of every size, bool and multiprecision numbers: diff is zero, evaluate and trim are the identity, is_zero holds exactly for zero, negate changes the sign in place, fma3(a, b, c) adds b*c to a also if operands are the same object, byte_size covers the object, and equal numbers have equal hashes. For other types, diff, integrate, degree, p_degree, evaluate, subs, pow, is_zero, negate, trim, byte_size, hash, safe_convert, fma3, truncate_degree, truncate_p_degree and the functions of keys and monomials use a customisation if there is one, otherwise the function found in the namespace of the type, otherwise the default; a conversion refused by safe_convert makes safe_cast throw safe_cast_failure.",
  "every value of the types", "tests use small values and types with one implementation; values beyond 32 bits and types with several implementations are not tried",
  [I + "math/diff.hpp", I + "math/evaluate.hpp", I + "math/is_zero.hpp", I + "math/negate.hpp", I + "math/fma3.hpp", I + "math/trim.hpp", I + "math/pow.hpp", I + "math/subs.hpp", I + "math/safe_cast.hpp", I + "hash.hpp", I + "byte_size.hpp"],
  [("evaluate_impl and the other *_impl overloads", I + "math/evaluate.hpp"), ("diff", I + "math/diff.hpp"), ("is_zero", I + "math/is_zero.hpp"), ("negate", I + "math/negate.hpp"), ("fma3", I + "math/fma3.hpp")],
  "Multiprecision numbers are mathematical integers and fractions (assumed contracts on mp++). Floating-point numbers are out of scope.")
p("P36", "The reported size of a series counts every part once",
  "byte_size(s) covers the object and every term of s, and counts the sizes that the keys, coefficients and the tag report exactly once, independently of the segmentation, and of how the parallel summation over the segments is split and joined. It leaves s unchanged, and a copy has the same size. byte_size of a monomial covers the object and the storage it has allocated.",
  "every series of symbolic terms with arbitrary reported sizes, segmentation and split of the parallel sum", "tests only check that the size is at least that of the object",
  [SE[0], I + "polynomials/d_packed_monomial.hpp", I + "byte_size.hpp"],
  [("series_default_byte_size_impl", SE[0]), ("byte_size", I + "polynomials/d_packed_monomial.hpp")],
  "Bounded: at most 3 terms and 4 segments. TBB is an assumed contract: pieces cover the range; a piece starts from the identity or continues from the piece before it.", level="other")
