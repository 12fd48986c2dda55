#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P = "src/polynomial/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}

DENSE, SPARSE, MONO, LIN, QUAD = P+"polynomial.rs", P+"sparsepolynomial.rs", P+"monomial.rs", P+"binomial.rs", P+"trinomial.rs"
STORE = [("terms (dense)", "coefficients in descending degree, possibly with leading zeros", DENSE),
         ("terms (sparse)", "degree -> coefficient map, possibly with explicit zeros", SPARSE)]
props = [
prop("C01", "Addition, subtraction and negation are exact for every type and operator form",
 "For every polynomial type and every operator form it offers (by value, by reference, in place, and sparse minus dense), p + q, p - q and -p have exactly the coefficient-wise sum, difference and negation as their terms. The answer depends only on the mathematical operands, never on zero coefficients they happen to store. A call may panic only when some resulting coefficient is not representable in the coefficient type.",
 ["inputs"], "all operand pairs (any length, any number of stored leading or interior zeros, either operand longer, cancelling leading terms) over all integer and float coefficient types",
 "The tests add and subtract a handful of 3- and 4-term operands over i32; padding zeros, cancellation, empty operands, other coefficient types and the by-reference forms are sampled once or never.",
 [DENSE, SPARSE, LIN, QUAD, MONO],
 [("longer/shorter operand split in add/add_assign/sub_assign", DENSE), ("map merge in add/sub", SPARSE), ("element-wise arrays", LIN)],
 ["terms_as_vec() of the result", "panic / return"], STORE),
prop("C02", "Products, powers and scalar scaling are exact",
 "For the dense, sparse and monomial types and every operator form, p * q and p.pow(n) have exactly the terms of the mathematical product and power, p * c and p / c scale every coefficient by c (integer division truncating), and so do the poly_mul! macro and mul_poly_vec. This includes zero and constant factors, zero operands, operands with stored zero coefficients, and pow(0) = 1. Exponents may have any size. A call may panic only when a coefficient overflows, when a stored term (a stored zero included) would get a degree beyond usize, or on division by a zero scalar.",
 ["inputs"], "all operand pairs and exponents, including zero polynomials in one or both positions, padded operands, and products whose inner terms cancel",
 "Tests square (x+2), scale it by 10 and raise one polynomial to a few powers; zero times zero, padded operands, cancellation, mixed lengths and most operator forms are never multiplied.",
 [DENSE, SPARSE, MONO, LIN, QUAD, P+"poly_math.rs"],
 [("slice_mul", DENSE), ("map_mul", SPARSE), ("pow by repeated squaring", DENSE), ("mul_poly_vec", P+"poly_math.rs")],
 ["terms_as_vec() of the result", "panic / return"], STORE),
prop("C03", "Polynomial division terminates and satisfies the division identity",
 "For dense and sparse polynomials and a non-zero divisor b, div_mod terminates and returns (q, r) with a = q*b + r, and r has lower degree than b whenever the leading-coefficient divisions are exact (or are floating point, up to rounding). floor_div, % and %= agree with div_mod. Division by the zero polynomial panics instead of returning an answer.",
 ["inputs"], "all dividend/divisor pairs over a field (finite fields, floats) and over the integers, with any stored zeros and any gap between the degrees",
 "Not one test divides polynomials: div_mod, floor_div, % and %= are never executed by the suite, and termination is a claim about all inputs.",
 [DENSE, SPARSE],
 [("long-division loop", DENSE+" div_mod / rem / rem_assign"), ("long-division loop over maps", SPARSE+" div_mod / rem / rem_assign")],
 ["quotient and remainder terms", "termination", "panic"], STORE),
prop("C04", "Evaluation at a point equals the sum of coefficient times power",
 "For every polynomial type, eval(x) equals the sum of c*x^d over its terms, for every degree the type can hold (including degrees beyond 2^31 in sparse polynomials and monomials) and every point, including 0. Stored zero coefficients never influence the result. A call may panic only when a term or partial sum overflows the coefficient type.",
 ["inputs"], "all polynomials, all points, all coefficient types, all degrees up to the largest usize",
 "Tests evaluate about six fixed polynomials of degree at most 3 at 0, 1, 5 or 10.",
 [DENSE, SPARSE, MONO, LIN, QUAD, "src/numerics.rs"],
 [("Horner loop with the zero-point shortcut", DENSE), ("power sum", SPARSE), ("PowUsize::upow", "src/numerics.rs")],
 ["eval() result", "panic"], STORE),
prop("C05", "Differentiation is exact, or refuses a degree it cannot represent",
 "For every polynomial type, derivative() has exactly the terms d*c*x^(d-1) for each term c*x^d with d >= 1, whatever zero coefficients are stored, and so does derivative!. It panics only when some product d*c overflows the coefficient type or some degree (for the dense types: some degree up to the highest) is not exactly representable in it; it never returns a wrong derivative.",
 ["inputs"], "all polynomials of every type over every coefficient type, degrees up to and beyond the largest value of the coefficient type",
 "Tests differentiate polynomials of degree at most 3; degrees near the limits of small coefficient types, padded operands and high-degree sparse terms are never differentiated.",
 [DENSE, SPARSE, MONO, LIN, QUAD, P+"derivative.rs", "src/numerics.rs"],
 [("derivative loop counting the degree down in N", DENSE), ("TryFromUsizeContinuous / TryFromUsizeExact", "src/numerics.rs")],
 ["terms_as_vec() of the derivative", "panic"], STORE),
prop("C06", "Integration is exact; definite integrals and replace_c agree with it",
 "For every polynomial type, integral() holds exactly the terms c/(d+1)*x^(d+1) (integer division truncating, floats up to rounding) and no constant term, eval(a, b) is that antiderivative at b minus at a, and replace_c(k) is the antiderivative plus the constant k; integral! and a wrapper built with Integral::new behave alike. Displaying an integral shows the antiderivative followed by '+ C', or just 'C' when it is zero. Stored zero coefficients never influence any of these.",
 ["inputs"], "all polynomials of every type over every coefficient type that can represent the incremented degrees, all bounds and constants",
 "Tests integrate one or two quadratics per type and evaluate one interval.",
 [P+"integral.rs", DENSE, SPARSE, MONO, LIN, QUAD],
 [("integral loop", DENSE), ("per-term insertion", SPARSE), ("Integral::eval, replace_c, Display", P+"integral.rs")],
 ["inner().terms_as_vec()", "eval(a,b)", "replace_c(k)", "to_string()"], STORE),
prop("C07", "Observers agree with each other and see only the mathematical value",
 "For every polynomial value, however its zero coefficients are stored, ordered_term_iter and terms_as_vec list exactly the non-zero terms in strictly descending degree, term_with_degree gives that coefficient or the zero term for every degree, degree is the largest listed degree (negative infinity iff is_zero), and == holds exactly when the terms are equal. zero() and set_to_zero() give the zero polynomial, new, from and polynomial! build what they are given, Term::new with a zero coefficient is the zero term, and trimming removes stored leading zeros but changes none of these observations.",
 ["inputs"], "all stored representations: dense vectors of any length with any block of leading zeros, sparse maps with explicit zeros, fixed-size types with zero leading coefficients, monomials with coefficient zero and any degree",
 "Tests look at a few short vectors; the block-wise scan for the first non-zero coefficient, long padded vectors, all-zero storage and equality between differently stored equal values are hardly sampled.",
 [DENSE, SPARSE, MONO, LIN, QUAD, P+"traits.rs", "src/terms.rs"],
 [("first_nonzero_index / first_term / degree scan in blocks of four", DENSE), ("degree scan and PartialEq over maps", SPARSE), ("as_term equality", MONO)],
 ["ordered_term_iter", "terms_as_vec", "term_with_degree", "degree", "is_zero", "=="], STORE),
prop("C08", "Shifts multiply or divide by a power of x",
 "p << n has exactly the terms of p with every degree raised by n, and p >> n has those of degree at least n lowered by n with the rest dropped; a negative n shifts the other way. The operator and in-place forms agree for every type that offers them, never panic for shift distances up to 2^31 - 1 whose result is representable, and depend only on the mathematical value of p.",
 ["inputs"], "all polynomials of every type that has shifts, all shift distances of either sign, any stored zeros",
 "Tests shift (x+2) by 5 and back; padded storage, distances around the stored length, zero polynomials and distance 0 are not shifted.",
 [DENSE, SPARSE, MONO, LIN, QUAD],
 [("slice/extend of terms", DENSE+" Shl/Shr/ShlAssign/ShrAssign"), ("map rebuild", SPARSE), ("degree arithmetic", MONO), ("array moves", QUAD)],
 ["terms_as_vec()", "panic"], STORE),
prop("C09", "Adding or removing a term is exact, or refused without effect",
 "For every type, try_add_term, try_sub_term, add_term and from_terms change exactly the coefficient of the given degree by exactly the given amount, or return an error and leave the polynomial unchanged. The error is reported exactly when the type cannot hold the result: DegreeOutOfBounds for a degree a fixed-size type has no room for, TooManyTerms for a second degree in a monomial, CanNotNegate when an unsigned type would need a negative coefficient (where a stored smaller coefficient may make the call panic instead). add_poly, sub_poly, mul_poly_vec and the poly_add!/poly_sub!/poly_mul! macros apply their terms in order through these calls, stopping a source at its first refused term and returning that error.",
 ["inputs", "histories"], "all values of each type, all terms, all sequences of term insertions and removals, signed and unsigned coefficients",
 "Tests add to an empty sink through the macros twice; refusals, their error values, the unchanged state after a refusal, and unsigned subtraction are not exercised.",
 [P+"traits.rs", P+"poly_math.rs", DENSE, SPARSE, MONO, LIN, QUAD, "src/err.rs"],
 [("try_add_term / try_sub_term", MONO), ("DegreeOutOfBounds guard", LIN), ("splice of leading zeros", DENSE), ("CanNegate", "src/numerics.rs")],
 ["Result value", "terms_as_vec() after the call"], STORE),
prop("C10", "Parsing accepts exactly the term grammar and returns the sum of the terms",
 "A polynomial's from_str splits its input at '+' and '-' signs and reads each piece as [sign][number]x[^][degree] or [sign][number], ignoring spaces, commas and underscores, with a missing coefficient meaning 1 and a missing degree meaning 1; the result is the sum of these terms in any order, zero terms contributing nothing; Term::from_str reads one such piece. Every other string is refused with an error whose kind names the first problem met from left to right, including numbers the coefficient type cannot hold and terms the polynomial type cannot hold. Parsing never panics for degrees that fit in memory as long as sums of equal-degree coefficients are representable.",
 ["inputs"], "all strings over the relevant characters (and other Unicode characters), for every polynomial type and integer and float coefficient types",
 "Tests parse about twenty strings; the accepted language is infinite and the interesting cases are combinations of signs, separators, carets, empty pieces, range limits and out-of-order or repeated degrees.",
 ["src/terms.rs", "src/strings.rs", "src/err.rs"],
 [("TermTokenizer", "src/terms.rs"), ("Term::from_str character scan", "src/terms.rs"), ("poly_from_str!", "src/strings.rs")],
 ["Ok(terms) / Err(kind)"], [("seen_x, seen_caret, num_vec", "parser state within one term", "src/terms.rs"), ("seen_start, start_index", "tokenizer state", "src/terms.rs")]),
prop("C11", "Displayed polynomials are canonical and parse back to the same polynomial",
 "to_string() of every polynomial type writes the non-zero terms in descending degree joined by ' + ' or ' - ', with a bare '-' prefix for a negative leading term, coefficients of magnitude one omitted except in the constant term, 'x' for degree one and 'x^d' above, and '0' for the zero polynomial. Parsing that text gives back an equal polynomial of the same type, for every finite coefficient including the extreme values of the type. Stored zero coefficients never appear.",
 ["inputs"], "all polynomials of every type over all signed, unsigned and float coefficient types, including minimum and maximum coefficients",
 "Tests print about fifteen i32 polynomials and never feed printed text back to the parser; extreme coefficients are never printed.",
 ["src/strings.rs", "src/terms.rs", MONO, "src/numerics.rs"],
 [("write_leading_term / write_trailing_term", "src/strings.rs"), ("fmt_poly!", "src/strings.rs"), ("Abs, IsPositive, IsNegativeOne", "src/numerics.rs")],
 ["to_string()", "from_str(to_string())"], STORE),
prop("C12", "Closed-form roots and factors of degree at most two are right",
 "Monomial, linear and quadratic root finders classify correctly: infinitely many roots for zero, none for a non-zero constant, real versus complex conjugate by the sign of the discriminant b^2 - 4ac. Every returned root satisfies the equation (exactly whenever the roots are representable in the coefficient type, otherwise up to rounding for floats), real quadratic roots come largest first, and a quadratic whose leading coefficient is zero answers like the linear one. When the leading coefficient is not zero, complex_factors, and real_factors when the discriminant is not negative, return the leading coefficient and two monic factors whose product is the original polynomial (up to rounding for floats, exactly for integers with integer roots); real_factors returns None otherwise.",
 ["inputs"], "all coefficient triples over signed integer and float types without overflow, negative, zero and positive leading coefficients, perfect-square and other discriminants",
 "Tests solve x^2+4x+4 and x^2+4 and a few linear cases; negative leading coefficients, odd sums of roots, degenerate leading coefficients and the factorisations are never checked.",
 [P+"find_roots.rs", QUAD, LIN, MONO, "src/numerics.rs"],
 [("trinomial_roots / discriminant_trinomial", P+"find_roots.rs"), ("integer AbsSqrt", "src/numerics.rs"), ("real_factors / complex_factors", QUAD)],
 ["root()/roots()/discriminant()/real_factors()/complex_factors()"]),
prop("C13", "Reported f64 roots are roots, and simple real roots are all found",
 "For dense and sparse f64 polynomials of any degree, roots() returns InfiniteRoots for zero and NoRoots for a non-zero constant. Linear, quadratic and cubic polynomials yield all their roots with multiplicity (a power of x alone yields the single root 0), classified as real or complex by the sign of the discriminant. Polynomials of higher degree whose roots are simple, of magnitude at most five and well separated, at most two pairs of them complex, yield exactly their real roots: as ManyRealRoots when all roots are real, as OnlyRealRoots when there are complex ones too, and as NoRoots when there is no real one. For every other polynomial the search terminates without panicking and reports at most as many roots as the degree.",
 ["inputs"], "all polynomials built from chosen well-separated roots, leading coefficients and up to two irreducible quadratic factors, in dense and sparse storage; all linear, quadratic and cubic polynomials with moderate coefficients",
 "Tests check five polynomials with all roots equal or already aligned; whole regimes (three distinct real roots of a cubic, mixed signs, complex pairs, zero roots) are never solved.",
 [P+"find_roots.rs", DENSE, SPARSE],
 [("find_roots_special dispatch by shape", P+"find_roots.rs"), ("cubic_roots", P+"find_roots.rs"), ("Sturm search plus deflation loop", P+"find_roots.rs")],
 ["roots()"]),
prop("C14", "Any sequence of operations on a polynomial tracks the mathematical value",
 "Starting from any value, after any sequence of in-place operations (term insertion and removal, += -= *= /= %= <<= >>=, set_to_zero, trim) and value-producing operations fed back in, a polynomial has exactly the terms obtained by doing the same arithmetic mathematically; the dense, sparse and fixed-size types therefore stay in agreement step by step. No intermediate storage shape (padding, explicit zeros, an emptied value) changes the outcome of a later step.",
 ["histories"], "all operation sequences over all polynomial types, any length",
 "Unit tests apply a single operation to a freshly built, normalised value; nothing runs sequences in which one operation's leftover storage is the next one's input.",
 [DENSE, SPARSE, MONO, LIN, QUAD],
 [("in-place operator implementations leave unnormalised storage behind", DENSE), ("explicit zeros left in the map", SPARSE)],
 ["terms_as_vec() after every step"], STORE),
prop("C15", "Widening conversions preserve every term",
 "Converting a polynomial to a wider coefficient type with From/Into keeps exactly the same degrees and exactly the same numeric coefficients, for every offered pair of coefficient types and every polynomial type, including the extreme values of the source type. Building a polynomial from a vector or a scalar gives exactly those coefficients.",
 ["inputs"], "all offered (source, target) coefficient pairs, all polynomial types, all coefficient values of the source type",
 "A single test converts one u8 polynomial to u16.",
 ["src/macros.rs", DENSE, SPARSE, MONO, LIN, QUAD],
 [("upcast!", "src/macros.rs"), ("from_*_a_to_b macros", DENSE)],
 ["terms_as_vec() before and after"]),
prop("C16", "Fixed-size array polynomials behave like the dense type",
 "With the array_polynomials feature, an array polynomial of any size answers degree, term lists, term lookup, evaluation, differentiation, integration, term insertion/removal, equality and (sizes 2 and 3) roots and factors exactly as the dense polynomial with the same coefficients, and refuses terms whose degree its size cannot hold without changing. The sparse_poly_trim feature changes nothing that can be observed.",
 ["inputs", "configurations"], "all array sizes and contents, and the optional feature switched on",
 "The feature's tests build one array, evaluate it once and differentiate four short arrays; its term iterator is never called.",
 [P+"array_polynomial.rs"],
 [("const-generic coefficient array", P+"array_polynomial.rs")],
 ["the array type's public methods, reached through a guarded re-export"], None,
 "a guarded re-export of the array polynomial type, which the crate root does not export"),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
