#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":["symbolic/"+f if not f.startswith(("get/","smErrors/")) else f for f in files],
       "mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SC=["constant.go","variable.go","monomial.go","polynomial.go"]
VE=["constant_vector.go","variable_vector.go","monomial_vector.go","polynomial_vector.go"]
MA=["constant_matrix.go","variable_matrix.go","monomial_matrix.go","polynomial_matrix.go"]
CO=["scalar_constraint.go","vector_constraint.go","matrix_constraint.go","constraint.go"]

p("C01","Addition and subtraction are exact, entry by entry, with scalar broadcast",
  "For any two well-formed expressions (constants, variables, monomials, polynomials and the vectors and matrices of them, plus the Go and gonum numbers the methods accept) whose dimensions agree, or of which one is a scalar, Plus and Minus return an expression of the common dimensions whose every entry is, as a polynomial function, exactly the sum or difference of the corresponding entries. A pair of kinds and dimensions that addition supports is never refused because of the particular values involved.",
  ["inputs","programs"],"all ordered pairs of well-formed operands of every kind and dimension-compatible shape, including results of earlier operations, like terms in any factor order, cancelling and zero coefficients, and tiny coefficients",
  "The tests add a handful of hand-picked pairs per kind and mostly check the type or length of the result; the claim is over all pairs of kinds, shapes and values.",
  SC+VE+MA+["expression.go","vector_expression.go","matrix_expression.go"],
  [("Plus/Minus of each kind","symbolic/polynomial.go:Plus"),("Minus through Plus and Multiply(-1)","symbolic/expression.go:Minus"),("entrywise templates","symbolic/vector_expression.go:VectorPlusTemplate; symbolic/matrix_expression.go:MatrixPlusTemplate"),("term matching","symbolic/monomial.go:MatchesFormOf")])
p("C02","Multiplication is the exact scalar, vector and matrix product",
  "For any two well-formed expressions with compatible dimensions (inner dimensions equal, or at least one operand scalar), Multiply returns an expression of the product's dimensions whose every entry is, as a polynomial function, exactly the matrix product (or scaled entry) of the operands. A pair of kinds and dimensions that multiplication supports is never refused because of the particular values involved.",
  ["inputs","programs"],"all ordered pairs of well-formed operands of every kind and product-compatible shape, including results of earlier operations, zero entries and shared variables",
  "Tests multiply a few pairs per kind, with shapes mostly 2x2 or square, and often check only the result's type; index slips in rectangular or value-dependent cases are out of their reach.",
  SC+VE+MA+["vector_expression.go","matrix_expression.go"],
  [("Multiply of each kind","symbolic/monomial.go:Multiply"),("matrix product template","symbolic/matrix_expression.go:MatrixMultiplyTemplate"),("vector product template","symbolic/vector_expression.go:VectorMultiplyTemplate")])
p("C03","No operation changes its operands or an earlier result",
  "Calling any exported operation on an expression or constraint (arithmetic, derivative, substitution, simplification, power, transpose, stacking, conversion, comparison, copying, queries, printing) never changes the value of its receiver, its arguments, or any expression produced by an earlier call, whatever sequence of operations is executed. This includes memory reachable only through the spare capacity of a slice the caller owns, and a documented deep copy stays unchanged when the original's parts are overwritten.",
  ["histories","inputs"],"all operations on all kinds of operands, and all sequences of two or three operations that share operands or use one another's results",
  "Tests look at the result of one call and hardly ever at the operands afterwards; aliasing only shows when a particular second operation follows.",
  SC+VE+MA+CO+["expression.go"],
  [("Copy before writing","symbolic/monomial.go:Copy; symbolic/polynomial.go:Copy"),("fresh result slices","symbolic/polynomial.go:Plus/Multiply; symbolic/monomial.go:DerivativeWrt")],
  [("Monomials / VariableFactors / Exponents slices","slices shared between values by Go's copy semantics","symbolic/monomial.go; symbolic/polynomial.go")])
p("C04","Derivatives are exact for every expression and variable",
  "For every well-formed scalar, vector or matrix expression and every variable, DerivativeWrt returns an expression whose every entry is, as a polynomial function, exactly the partial derivative of the corresponding entry, with the dimensions of the operand. It never refuses a well-formed operand.",
  ["inputs","programs"],"all well-formed expressions of every kind, present and absent variables, any factor order, exponents, like terms and zero entries",
  "Tests differentiate a handful of expressions; product forms with several factors, entries whose derivative changes kind and high exponents are open-ended.",
  SC+VE+MA,[("power rule","symbolic/monomial.go:DerivativeWrt"),("sum rule","symbolic/polynomial.go:DerivativeWrt"),("entrywise","symbolic/polynomial_vector.go:DerivativeWrt; symbolic/polynomial_matrix.go:DerivativeWrt")])
p("C05","Substituting one variable is exact composition",
  "For every well-formed expression, every variable and every well-formed scalar expression, Substitute returns an expression equal as a polynomial function to the operand with every occurrence of that variable replaced simultaneously by the replacement (which may mention the same variable), leaves all other variables alone and keeps the dimensions. If the variable does not occur, the meaning is unchanged.",
  ["inputs","programs"],"all expressions of every kind x variables x replacement expressions (constant, variable, monomial, polynomial, self-referential)",
  "Tests try a few substitutions; powers, repeated factors, replacements that mention the replaced variable and vector or matrix entries are unbounded.",
  SC+VE+MA+["matrix_expression.go","vector_expression.go"],[("composition by Power and Multiply","symbolic/monomial.go:Substitute"),("sum of terms","symbolic/polynomial.go:Substitute"),("entrywise","symbolic/matrix_expression.go:MatrixSubstituteTemplate")])
p("C06","Substituting by a map is simultaneous and independent of map order",
  "For every well-formed expression and every map from variables to scalar expressions, SubstituteAccordingTo equals, as a polynomial function, the operand with all mapped variables replaced at the same time (so a map may swap or chain variables), with the same dimensions and the same value on every call, regardless of the iteration order of the map. A map with a malformed or non-scalar value is refused by the map check.",
  ["inputs","schedules"],"all expressions of every kind x maps with up to four entries (swaps, cycles, chains, overlaps) x all iteration orders of those maps",
  "Go randomises map iteration, so a test sees one order per run; existing tests use maps with one or independent entries.",
  SC+VE+MA+["utils.go"],[("map lookup per variable","symbolic/variable.go:SubstituteAccordingTo"),("term and entry recursion","symbolic/monomial.go, polynomial.go, *_vector.go, *_matrix.go: SubstituteAccordingTo"),("validation","symbolic/utils.go:CheckSubstitutionMap")],
  None)
p("C07","Simplification keeps the meaning and reaches a canonical form",
  "AsSimplifiedExpression and Simplify return an expression with the same dimensions and the same polynomial function in every entry as the operand. Their result contains no two like terms and no zero-coefficient term next to another term, is reduced to the simplest applicable scalar kind, and simplifying again changes nothing.",
  ["inputs"],"all well-formed expressions, including unsimplified ones with repeated, permuted, cancelling, constant and zero terms in any position",
  "Tests simplify a few polynomials; the result depends on every order and multiplicity of like terms.",
  SC+VE+MA,[("like-term merging","symbolic/polynomial.go:Simplify"),("term matching","symbolic/monomial.go:MatchesFormOf"),("kind reduction","symbolic/polynomial.go, monomial.go: AsSimplifiedExpression")])
p("C08","Powers equal repeated multiplication",
  "For every well-formed scalar or square-matrix expression (and every other shape Power accepts) and every non-negative integer n, Power(n) equals as a polynomial function the n-fold product of the expression with itself, with Power(0) the constant one or the identity matrix. Negative exponents on non-constant scalars and on matrices are refused.",
  ["inputs"],"all kinds of bases x exponents from negative to the bound",
  "Tests use exponents 0 to 3 on one base per kind.",
  SC+VE+MA+["scalar_expression.go","vector_expression.go","matrix_expression.go"],[("power templates","symbolic/scalar_expression.go:ScalarPowerTemplate; symbolic/vector_expression.go:VectorPowerTemplate; symbolic/matrix_expression.go:MatrixPowerTemplate")])
p("C09","Constant part and linear coefficients are exact for any variable list",
  "For every well-formed expression, Constant returns exactly the constant term of every entry, and LinearCoeff returns exactly the coefficient of each single-variable degree-one term: row by row, in the order of the list of distinct variables supplied (in any order, possibly containing variables that do not occur), or in the order of Variables() when none is supplied. Asking for the linear coefficients with respect to no variables is refused.",
  ["inputs"],"all expressions of every scalar and vector kind (matrix kinds for Constant), any term order and like terms, x all lists of up to four distinct variables in every order",
  "Tests query a few expressions with their own variable order; position mapping between the list and the terms is a for-all-permutations claim.",
  SC+VE+MA+["polynomial_like_vector.go"],[("coefficient lookup","symbolic/polynomial.go:LinearCoeff/Constant; symbolic/monomial.go:LinearCoeff; symbolic/variable.go:LinearCoeff"),("row assembly","symbolic/polynomial_like_vector.go:PolynomialLikeVector_SharedLinearCoeffCalc")])
p("C10","Reported variables, degree and linearity describe the expression",
  "For every well-formed expression Variables lists each variable that can influence its value exactly once and lists no variable that does not appear in it, and NumVariables, VariableIDs, Unique, UniqueVars and UnionOfVariables agree with set semantics. Degree is the true maximal total degree of the terms that appear, and IsLinear, IsQuadratic, IsConstant, IsZero, IsVariable, ToVariable and the term-index queries give the mathematically correct answer.",
  ["inputs"],"all well-formed expressions of every kind and all variable lists with repetitions up to the bound",
  "Tests check a few lists; repetition patterns, positions and mixed degrees are unbounded.",
  SC+VE+MA+["expression.go","utils.go"],[("collection and deduplication","symbolic/variable.go:UniqueVars,UnionOfVariables; symbolic/utils.go:Unique"),("degree","symbolic/polynomial.go:Degree; symbolic/expression.go:IsLinear,IsQuadratic")])
p("C11","Dimensions, indexing, transpose and stacking preserve every entry",
  "Dims, Len, At and AtVec report the true shape and the true entry at every valid index; Transpose swaps rows and columns of every entry and is its own inverse; HStack and VStack of expressions with matching rows or columns contain exactly their operands' entries side by side or one above the other in order; and assembling scalars or rows with the Concretize helpers keeps every entry in place, whatever mix of kinds is involved.",
  ["inputs","programs"],"all kinds and shapes, all index pairs, and all sequences of one to four stacked operands of mixed kinds and shapes",
  "Tests transpose or stack a few fixed matrices and look at single entries or result types.",
  SC+VE+MA+["expression.go","matrix_expression.go","vector_expression.go"],[("transposes","symbolic/*_matrix.go, *_vector.go: Transpose"),("stacking","symbolic/expression.go:HStack,VStack"),("kind selection","symbolic/expression.go:ConcretizeExpression; symbolic/vector_expression.go:ConcretizeVectorExpression; symbolic/matrix_expression.go:ConcretizeMatrixExpression")])
p("C12","Comparisons build constraints that say exactly what was written",
  "LessEq, GreaterEq, Eq and Comparison on well-formed expressions with matching dimensions, or one of which is a scalar, return a constraint whose left and right sides and sense denote, entry by entry, exactly the relation written. Indexing such a constraint, reading its Dims, Len, Variables and IsLinear, and compiling a list of constraints into scalar constraints yield exactly the corresponding entries, in order and with none lost or repeated.",
  ["inputs","programs"],"all pairs of kinds and compatible shapes x three senses, all entries, and all lists of up to three constraints of mixed shapes",
  "Tests build a few constraints per kind; mixed kinds, broadcasts and compiled lists are combinatorial.",
  SC+VE+MA+CO,[("Comparison methods","symbolic/*.go: Comparison"),("entry access","symbolic/vector_constraint.go:AtVec; symbolic/matrix_constraint.go:At"),("compilation","symbolic/constraint.go:CompileConstraintsIntoScalarConstraints")])
p("C13","Rewriting a constraint keeps its set of solutions",
  "AsSimplifiedConstraint, Simplify, and ScaleBy with a non-zero factor return a constraint satisfied by exactly the same assignments as the original (a negative factor reverses an inequality), and Substitute and SubstituteAccordingTo on a constraint return one satisfied exactly where the original is satisfied under the substituted values. A simplified constraint has a constant right-hand side. This holds for scalar, vector and matrix constraints of every sense, and the constraint is never refused because of its values.",
  ["inputs"],"all constraints over the expression alphabet x senses x scale factors (positive, negative, fractional) x substitutions, compared as polynomial relations",
  "Tests check a few rewritten constraints by type or one coefficient; sense and side bookkeeping is a for-all claim over sides, senses and signs.",
  CO,[("moving variables left, constants right","symbolic/scalar_constraint.go:AsSimplifiedConstraint,Simplify; symbolic/vector_constraint.go, matrix_constraint.go: AsSimplifiedConstraint"),("sense flip","symbolic/scalar_constraint.go:ScaleBy")])
p("C14","Linear matrix forms of constraints are equivalent to the constraints",
  "For every linear scalar or vector inequality, LinearInequalityConstraintRepresentation returns A and b such that A x <= b is satisfied by exactly the assignments x that satisfy the constraint, and for every linear equality LinearEqualityConstraintRepresentation returns C and d with C x = d likewise, columns following the supplied list of variables (or, without a list, the constraint's Variables() in order). Non-linear constraints, equality forms of inequalities, and inequality forms of equalities are refused.",
  ["inputs"],"all linear constraints over the alphabet with variables and constants on either side, all senses, all orders of covering variable lists",
  "Tests check single instances; sign conventions for each sense and side and column order are a product space.",
  ["scalar_constraint.go","vector_constraint.go","polynomial_like_vector.go"],[("representation","symbolic/scalar_constraint.go, vector_constraint.go: LinearInequalityConstraintRepresentation, LinearEqualityConstraintRepresentation")])
p("C15","A constraint reported as implied is implied",
  "Whenever ImpliesThisIsAlsoSatisfied reports true, every assignment that satisfies the first constraint satisfies the second. IsNonnegativityConstraint reports true exactly when, with everything moved to one side and like terms combined, the constraint says that a positive multiple of one variable is at least zero.",
  ["inputs"],"all ordered pairs of scalar constraints over the alphabet with one or two variables, constants on both sides, every sense and both signs of coefficients",
  "Tests check a few implications that hold; soundness is about every pair for which the answer is yes.",
  ["scalar_constraint.go","vector_constraint.go","matrix_constraint.go"],[("implication for one-variable constraints","symbolic/scalar_constraint.go:ImpliesThisIsAlsoSatisfied"),("recogniser","symbolic/scalar_constraint.go:IsNonnegativityConstraint")])
p("C16","Dimension mismatches, bad indices and malformed operands are always refused",
  "An operation on operands whose dimensions do not fit (addition, subtraction, multiplication, comparison, stacking, power of a non-square matrix), an index outside the expression, arithmetic or comparison with something that is no expression or number at all, or arithmetic, comparison, stacking, power, differentiation or substitution with an operand that its own Check reports as malformed never yields a result: the call panics or returns an error (constants, whose derivative and substitution do not depend on it, may ignore the variable or replacement given). The dimension and index checks of the errors package accept exactly the compatible dimensions and the in-range indices.",
  ["inputs"],"all pairs of kinds and shapes up to the bound that do not fit, all out-of-range index pairs, and all malformed operands in every operand position of every operation",
  "Tests try one mismatch per method; a check lost for one pair of kinds or one side of a rectangular shape stays unnoticed and yields a silently wrong result.",
  SC+VE+MA+CO+["smErrors/matrix_dimension_error.go","smErrors/out_of_bounds_error.go"],[("entry checks","symbolic/*.go: Check, CheckDimensionsInComparison"),("dimension errors","smErrors: CheckDimensionsInAddition, CheckDimensionsInSubtraction, CheckDimensionsInMultiplication, CheckIndexOnMatrix")])
p("C17","Variables keep their identity within and across environments",
  "Every variable created in an environment, singly or in vectors and matrices, whatever mix of creations and tracking calls precedes it, gets an identifier no other variable of that environment has, is tracked there exactly once and in creation order, carries the requested type, bounds and environment and a printed name no other variable created in that environment has, and leaves every other environment and every earlier variable untouched. Tracking reports whether the variable was new. Every operation takes two variables for the same one exactly when their identifiers and environments agree, whatever their bounds and types.",
  ["histories"],"all sequences up to the bound of creating continuous and binary variables, vectors and matrices in two environments and the default one, and of tracking own and foreign variables; all pairs of the variables so made, in the operations that have to recognise variables",
  "Tests create a few variables in one order; uniqueness is a property of every creation history.",
  ["variable.go","variable_vector.go","variable_matrix.go","basic_environment.go","environment.go"],[("identifier allocation","symbolic/variable.go:NewContinuousVariable,NewBinaryVariable"),("tracking","symbolic/basic_environment.go:TrackVariable")],
  [("tracked variables","ordered list of an environment's variables","symbolic/basic_environment.go:Variables")])
p("C18","Whether an operation is supported depends on kinds and shapes only",
  "For every exported operation, whether it accepts well-formed operands with fitting dimensions depends only on the kinds and dimensions of the operands (for linear representations, also on linearity and on whether any variable occurs; for linear coefficients, on whether a variable occurs; for conversion to a variable, on being one; for powers, on the sign of the exponent), and not otherwise on coefficient values, on which variables occur, on entries being zero, or on operations executed before. No operation on well-formed operands crashes with a run-time error or fails to terminate.",
  ["inputs","histories"],"all exported methods discovered from the compiled API x all kinds and shapes x value patterns",
  "A panic that needs a zero entry or a cancelling term in one kind pair is hit only by that combination.",
  SC+VE+MA+CO+["expression.go"],[("type switches on intermediate results","symbolic/*_matrix.go, *_vector.go: type assertions after Plus/Multiply/DerivativeWrt/Substitute")])
p("C19","The printed form denotes the same expression",
  "Reading back the text printed for a variable, monomial, polynomial, vector, matrix or scalar constraint, with ordinary meaning of signs, juxtaposition, exponents, brackets and relation symbols, gives an expression (or relation) equal as a polynomial function to the printed one.",
  ["inputs"],"all well-formed expressions of every kind over the alphabet, signs, unit and zero coefficients, exponents, variable names with several digits",
  "Tests look for a substring in one or two printed expressions.",
  SC+VE+MA+["scalar_constraint.go"],[("String methods","symbolic/*.go: String")])
p("C20","Conversions between kinds and to and from gonum are lossless",
  "Every conversion (To... methods and functions, From helpers, gonum vectors and dense matrices in either direction, Go numbers and gonum values accepted as expressions) yields a value with the same dimensions and, entry by entry, the same polynomial function, or an error where the target kind cannot represent the source. The predicates (IsExpression, IsScalarExpression, IsPolynomialLike and the like) accept exactly the values the matching conversions accept, and a conversion's result shares no storage with a gonum source that is later overwritten.",
  ["inputs"],"all kinds and shapes x all conversion functions and predicates",
  "Tests convert one example per function.",
  SC+VE+MA+["expression.go","scalar_expression.go","vector_expression.go","matrix_expression.go","polynomial_like.go","polynomial_like_scalar.go","polynomial_like_vector.go","polynomial_like_matrix.go","get/KMatrix/from.go","get/KVector/from.go"],[("conversions","symbolic/*_expression.go, polynomial_like*.go: To...; symbolic/constant_vector.go, constant_matrix.go; get/*")])
p("C21","The same call always gives the same observable result",
  "Executing the same operation on equal operands again, in the same process or another, after any other operations, and under any iteration order of Go maps, returns a result with the same printed form, the same order of terms, entries and listed variables, or the same refusal.",
  ["inputs","histories","schedules"],"all operations x operands x map iteration orders x preceding operations",
  "A test run observes one map order and one history; flakiness appears only in others.",
  SC+VE+MA+CO,[("map-free or order-insensitive algorithms","symbolic/constraint.go:VariablesInThisConstraint; symbolic/*: SubstituteAccordingTo; symbolic/variable.go:UniqueVars")])
p("C22","Well-formedness checks are exact and every result is well formed",
  "Check on an expression or constraint reports an error exactly when it is malformed: a monomial whose exponent and factor counts differ, a polynomial without terms, an empty monomial or polynomial vector, an empty matrix or unequal rows of a non-constant matrix kind, a variable whose lower bound is not below its upper bound, any malformed part, or, for constraints, sides whose dimensions differ or an unknown sense. Every result of an accepted operation on well-formed operands passes its own Check.",
  ["inputs","programs"],"all well-formed and all single-fault malformed values of every kind at every position, and all results of operations over the alphabet",
  "Tests build one malformed value per kind; position and kind of the fault and the closure of results under all operations are for-all claims.",
  SC+VE+MA+CO,[("Check methods","symbolic/*.go: Check")])
p("C23","Chained operations give what the composed operations mean",
  "Chaining operations on expressions (sums, differences, products, powers, transposition, stacking, entry access, differentiation, substitution, simplification) and on constraints (simplification, scaling, substitution, entry access, compilation), in any order and however long, yields at every step a value that denotes what the corresponding mathematical operations, composed in that order, give, and whatever a value is read for along the way (dimensions, variables, linearity, linear forms) fits what it denotes. An intermediate value denotes the same after everything done with it, so it may be continued in several ways.",
  ["inputs","histories","programs"],"all sequences of operations up to the bound from a set of starting expressions and constraints of every kind, with intermediate values shared by all their continuations",
  "Tests apply one operation to freshly built operands; values that come out of operations carry term orders, zero terms, kinds and shared storage that tests do not construct, and the sequences are combinatorial.",
  SC+VE+MA+CO+["expression.go"],[("arithmetic on results","symbolic/*.go: Plus, Minus, Multiply, Power"),("rewriting of results","symbolic/*.go: Substitute, SubstituteAccordingTo, DerivativeWrt, AsSimplifiedExpression"),("constraints from constraints","symbolic/*_constraint.go: AsSimplifiedConstraint, Simplify, ScaleBy, Substitute")])
p("C24","Expressions can be shared between goroutines",
  "Operations on expressions and constraints can run at the same time in any number of goroutines on shared operands, and beside the creation of variables: under every interleaving there is no data race, each call returns what it returns when executed alone, and nobody who reads an operand meanwhile sees it change. Creating variables in one environment is independent of everything that happens in other environments. (Adding variables to the same environment from several goroutines is not covered.)",
  ["inputs","schedules"],"all interleavings of two calls of any operations on the same operand objects with a reader of these, of two calls on the same result, and of calls that create variables in different environments",
  "Tests run one call at a time. A buffer kept between calls, a cache without a lock, or an operand that is changed and restored is invisible to sequential tests and to comparisons before and after a call.",
  SC+VE+MA+CO+["environment.go","basic_environment.go"],[("expressions are values","symbolic/*.go: all methods"),("creation of variables","symbolic/variable.go: NewContinuousVariable, NewBinaryVariable")])
p("C25","A refusal says what did not fit",
  "Every refusal of a call whose operands do not fit carries an error that can be printed and is no Go run-time error: for arithmetic, comparison and stacking of operands whose dimensions do not fit, a dimension error naming the operation and the true dimensions of two operands that do not fit, in their order; for an index outside the bounds that the library reports, the index and the true dimensions; for an argument that is no expression, its type; for a negative exponent, the exponent; for a malformed operand, what its Check finds wrong, which itself tells the true numbers (columns and row, exponents and factors, bounds) and the position of the malformed entry; for a constraint without the linear form asked for, that form and the side that is not linear or the sense required; for linear coefficients with respect to no variables and for a refused conversion, the type of the operand. The dimension and index checks of the errors package do likewise. (Errors of the Go runtime or of gonum about an index into a constant are accepted.)",
  ["inputs"],"all operands of all kinds, shapes and orders that do not fit, all indices outside, all single-fault operands, all constraints without the form asked for, all conversions of all kinds",
  "Tests compare a few messages for a few shapes. A swapped pair of operands, the dimensions of a partial result, a stale or misnamed operation, or a panic from inside gonum instead of a dimension error is only seen when each refusal is judged against what really did not fit.",
  SC+VE+MA+CO+["smErrors/"],[("errors of dimensions and indices","smErrors/*.go"),("refusals","symbolic/*.go: all operators, comparisons, At, AtVec, Power, Check")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
