#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects found, repaired (fixed) or not (known)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """C07 973997b like terms written in different factor order, e.g. x^2 y and y x^2, were not recognised; different monomials such as x^2 y and x y^2 were merged (MatchesFormOf compared exponents by position; also broke C01, C09)
C03 d7ee5ce Monomial.DerivativeWrt decremented the exponent of its own receiver
C03 01c16a1 Monomial.Multiply appended into the spare capacity of its receiver's factor list, changing an earlier product
C03 dd4e101 Polynomial.Copy shared the factor and exponent lists of its terms with the original
C09 0a7d427 Monomial.LinearCoeff panicked for constants and for lists without the monomial's variable
C09 50a8e8a Polynomial.Constant and Polynomial.LinearCoeff reported only one of several matching terms
C06 109d54a vectors and matrices substituted a map's variables one after the other, so that a swap or chain depended on the map's iteration order
C04 e43ca4b PolynomialVector.DerivativeWrt overwrote its receiver (C03) and panicked when an entry's derivative was zero
C04 c2f7526 PolynomialMatrix.DerivativeWrt panicked when an entry's derivative was a constant
C01 6cb3735 adding a vector of length one to a longer vector used only the first entries or panicked
C01 29630f3 matrix sums panicked depending on entry values (entry results of other kinds), and 1x1 matrices were not broadcast
C02 173a949 VariableMatrix x K and MonomialMatrix x VariableVector panicked or gave wrong entries depending on values
C02 a0651bd products with a vector or matrix of one entry were refused or had the wrong dimensions
C08 16027fc powers of 1x1 matrices panicked
C17 2ae3e58 a new variable received the identifier of a variable tracked in its environment earlier (identifiers were counted, not checked)
C21 04e39bd the variables of a constraint were listed in a different order on every call (map iteration)
C15 25b9ead ImpliesThisIsAlsoSatisfied ignored constants on the left and nonlinear terms, and reported implications that do not hold
C15 eaed104 IsNonnegativityConstraint ignored constants and further terms on the left hand side
C20 25ba73b Monomial.ToVariable turned 2 x into x (also C10)
C16 4c75468 comparing column matrices of different length panicked with a run-time type assertion instead of reporting a dimension error
C14 93db39e linear forms and simplification (C13) of constraints between vectors of length one crashed
C13 a1ab5e3 simplification of constraints between matrices with a single column crashed
C22 d268613 VectorConstraint.Check accepted sides of different lengths when one length is one
C14 c9c4251 LinearInequalityConstraintRepresentation of a scalar equality returned a half space
C13 3127835 PolynomialMatrix.Minus crashed for single-column operands (also C01)
C14 794cf45 columns of linear forms did not follow the constraint's Variables()
C16 7a9d1ba Variable.Plus accepted a malformed right operand
C16 2fecff1 PolynomialVector.DerivativeWrt accepted malformed vectors, VariableMatrix.DerivativeWrt a malformed variable
C19 78c7a9a KMatrix.String opened every row but the first twice
C19 8c40a8c MonomialMatrix.String separated rows by two commas and ended with one
C17 5833923 variables of different environments with the same identifier were taken for one variable by sums, products, derivatives, coefficients and variable lists (also C01, C02, C04, C09, C10)
C06 d752927 substitution by a map ignored a variable whose bounds had changed since the expression was built, which Substitute and every other operation recognise
C07 36ae10f monomials with a zero exponent or a repeated variable, which Check accepts: constant terms lost when a polynomial was simplified, wrong derivatives, constant parts and linear coefficients, a variable listed twice (also C04, C05, C08, C09, C10)"""
fixed = []
for l in F.splitlines():
    p, c, w = l.split(" ", 2)
    fixed.append(f"fixed: property={p} {c} {w}")
json.dump({"known": [], "fixed": fixed}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
