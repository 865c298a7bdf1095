From 973997b98701ba2e9538aa59e81cfc9ea38b109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 01/33] fix: Monomial.MatchesFormOf compares the exponents of
 the same variable

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From d7ee5ce628b2d62068c97cda9affe5b33331b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 02/33] fix: Monomial.DerivativeWrt no longer changes its
 receiver's exponents

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From 01c16a1cb5f4fa5ea7c1f4fd2c778aaea2e2b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 03/33] fix: Monomial.Multiply no longer writes into the spare
 capacity of its receiver's factors

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..f299efc 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		variables := append(append([]Variable{}, m.VariableFactors...), right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From dd4e1013489d8cbca40cc7e16cce0f272e0610f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 04/33] fix: Polynomial.Copy makes the deep copy it documents

---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..8cc25c6 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From 0a7d427437d14a8c8d1f550c3220574b757aef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 05/33] fix: Monomial.LinearCoeff accepts constants and lists
 that do not mention the monomial's variable

---
 symbolic/monomial.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index f299efc..f642949 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -358,8 +358,11 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	if IsLinear(m) {
 		// If the monomial is linear,
 		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+		for ii, v := range wrtVars {
+			if m.IsDegreeOneContainingVariable(v) {
+				linearCoeffs.SetVec(ii, m.Coefficient)
+			}
+		}
 	}
 
 	// Return
-- 
2.43.0


From 50a8e8af21c749d10bea7f4072285e0628533975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:52 +0000
Subject: [PATCH 06/33] fix: Polynomial.Constant and LinearCoeff add up all
 matching terms

---
 symbolic/polynomial.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 8cc25c6..d94470a 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -460,12 +460,13 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		if monomial.IsConstant() {
+			constant += monomial.Coefficient
+		}
 	}
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -654,9 +655,10 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
 		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeffOut.SetVec(ii, coeffOut.AtVec(ii)+monomial.Coefficient)
+			}
 		}
 	}
 
-- 
2.43.0


From 109d54a22bb3c8225041a06d93bbf6d1b06f8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 07/33] fix: vectors and matrices substitute all variables of a
 map at the same time

---
 symbolic/matrix_expression.go | 15 +++++++++++++++
 symbolic/monomial_matrix.go   |  8 ++------
 symbolic/monomial_vector.go   |  9 ++-------
 symbolic/polynomial_matrix.go |  9 ++-------
 symbolic/polynomial_vector.go |  9 ++-------
 symbolic/variable_matrix.go   |  9 ++-------
 symbolic/variable_vector.go   | 10 ++--------
 symbolic/vector_expression.go | 12 ++++++++++++
 8 files changed, 39 insertions(+), 42 deletions(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..0d5d1fb 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -300,6 +300,21 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 	return ConcretizeMatrixExpression(out)
 }
 
+// MatrixSubstituteAccordingToTemplate Defines the template for the matrix substitution of all variables
+// in a map at the same time.
+func MatrixSubstituteAccordingToTemplate(me MatrixExpression, subMap map[Variable]Expression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < me.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < me.Dims()[1]; jj++ {
+			newElt := me.At(ii, jj).SubstituteAccordingTo(subMap)
+			tempRow = append(tempRow, newElt.(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+	return ConcretizeMatrixExpression(out)
+}
+
 // ConcretizeMatrixExpression Converts the input expression to a valid type that implements "MatrixExpression".
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..8902645 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -583,12 +583,8 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
-	}
-	return out
+	// (Substitute all variables at once, in each element)
+	return MatrixSubstituteAccordingToTemplate(mm, substitutions)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..558a398 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -511,13 +511,8 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 		panic(err)
 	}
 
-	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
-	}
-	return out
+	// Substitute all variables at once, in each element
+	return VectorSubstituteAccordingToTemplate(mv, subMap)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..54362ac 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -589,13 +589,8 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	// (Substitute all variables at once, in each element)
+	return MatrixSubstituteAccordingToTemplate(pm, subMap)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..9e76190 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -501,13 +501,8 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
-	}
-
-	return result
+	// (Substitute all variables at once, in each element)
+	return VectorSubstituteAccordingToTemplate(pv, subMap)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..c24c969 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -582,13 +582,8 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
-	}
-
-	return out
+	// (Substitute all variables at once, in each element)
+	return MatrixSubstituteAccordingToTemplate(vm, subMap)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..dde78f6 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -476,14 +476,8 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
-	}
-
-	return out
-
+	// (Substitute all variables at once, in each element)
+	return VectorSubstituteAccordingToTemplate(vv, subMap)
 }
 
 // Power Raises the variable vector to the power of the input integer
diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..9fa73e7 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -327,6 +327,18 @@ func VectorSubstituteTemplate(ve VectorExpression, vIn Variable, se ScalarExpres
 	return ConcretizeVectorExpression(result)
 }
 
+// VectorSubstituteAccordingToTemplate Defines the template for the vector substitution of all variables
+// in a map at the same time.
+func VectorSubstituteAccordingToTemplate(ve VectorExpression, subMap map[Variable]Expression) VectorExpression {
+	var result []ScalarExpression
+	for ii := 0; ii < ve.Len(); ii++ {
+		postSub := ve.AtVec(ii).SubstituteAccordingTo(subMap)
+		result = append(result, postSub.(ScalarExpression))
+	}
+
+	return ConcretizeVectorExpression(result)
+}
+
 // VectorPowerTemplate Defines the template for the vector power operation.
 func VectorPowerTemplate(base VectorExpression, exponent int) Expression {
 	// Setup
-- 
2.43.0


From e43ca4b86673dadd4934dae2c7959633dcf3badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 08/33] fix: PolynomialVector.DerivativeWrt keeps its receiver
 and accepts zero derivatives

---
 symbolic/polynomial_vector.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 9e76190..0a24836 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -382,11 +382,16 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
 	// Constants
-	var derivative PolynomialVector = pv
+	derivative := make(PolynomialVector, len(pv))
 
 	// Algorithm
 	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+		switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+		case Polynomial:
+			derivative[ii] = dPolynomial
+		case K:
+			derivative[ii] = dPolynomial.ToPolynomial()
+		}
 	}
 
 	return derivative
-- 
2.43.0


From c2f7526cd9dc9c5f23120d6e0d3f70d43ae2d933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/33] fix: PolynomialMatrix.DerivativeWrt accepts zero
 derivatives

---
 symbolic/polynomial_matrix.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 54362ac..2b89c89 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -436,7 +436,12 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+			case Polynomial:
+				dpmRow = append(dpmRow, dPolynomial)
+			case K:
+				dpmRow = append(dpmRow, dPolynomial.ToPolynomial())
+			}
 		}
 		dpm = append(dpm, dpmRow)
 	}
-- 
2.43.0


From 6cb3735362629397e23e5ba35cd647fae6c4df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 10/33] fix: adding a vector of length one to a longer vector
 uses every element

---
 symbolic/vector_expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 9fa73e7..dfef0dd 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -411,7 +411,14 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
+		if ve.Len() == 1 && rightExpr.Len() > 1 {
+			// ve acts as a scalar, which is added to every element of right
+			return VectorPlusTemplate(rightExpr, veAsSlice[0])
+		}
 		for ii, se := range veAsSlice {
+			if rightExpr.Len() == 1 {
+				ii = 0 // right acts as a scalar
+			}
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
 		}
-- 
2.43.0


From 29630f3071835d7aa6ca0858b7775fe166806884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:58 +0000
Subject: [PATCH 11/33] fix: matrix sums no longer depend on the values of the
 entries, and (1x1) matrices act as scalars

---
 symbolic/constant_matrix.go   |  3 +++
 symbolic/matrix_expression.go | 21 +++++++++++++++++++++
 symbolic/monomial_matrix.go   |  7 +++++++
 symbolic/polynomial_matrix.go | 14 ++++++++++++++
 symbolic/variable_matrix.go   | 15 +++++----------
 5 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..a3f401b 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -120,6 +120,9 @@ func (km KMatrix) Plus(e interface{}) Expression {
 	case *mat.Dense:
 		out = km.Plus(*right) // Reuse mat.Dense case
 
+	case ScalarExpression:
+		out = matrixPlusScalar(km, right)
+
 	case MatrixExpression:
 		out = MatrixPlusTemplate(km, right)
 	default:
diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 0d5d1fb..0f59c9a 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -245,6 +245,14 @@ func MatrixPlusTemplate(left MatrixExpression, right MatrixExpression) MatrixExp
 	leftDims := left.Dims()
 	rightDims := right.Dims()
 
+	// A (1x1) matrix acts as a scalar
+	if rightDims[0]*rightDims[1] == 1 && leftDims[0]*leftDims[1] > 1 {
+		return matrixPlusScalar(left, right.At(0, 0))
+	}
+	if leftDims[0]*leftDims[1] == 1 && rightDims[0]*rightDims[1] > 1 {
+		return matrixPlusScalar(right, left.At(0, 0))
+	}
+
 	if leftDims[0] != rightDims[0] || leftDims[1] != rightDims[1] {
 		panic(
 			smErrors.MatrixDimensionError{
@@ -268,6 +276,19 @@ func MatrixPlusTemplate(left MatrixExpression, right MatrixExpression) MatrixExp
 	return ConcretizeMatrixExpression(out)
 }
 
+// matrixPlusScalar adds a scalar to every element of a matrix.
+func matrixPlusScalar(left MatrixExpression, right ScalarExpression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < left.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < left.Dims()[1]; jj++ {
+			tempRow = append(tempRow, left.At(ii, jj).Plus(right).(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+	return ConcretizeMatrixExpression(out)
+}
+
 // MatrixSubstituteTemplate is a function that can compute the substitution of a variable with a scalar expression into a matrix object. Any object that implements MatrixExpression can be used in this function to compute substitutions.
 // This is also heavily used across all matrix objects because they are required to implement SubstituteWith (or related) methods.
 func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpression) MatrixExpression {
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 8902645..ca952fe 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -179,6 +179,11 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		}
 		return sum
 	case PolynomialMatrix:
+		// If either matrix acts as a scalar, then use the template
+		if len(mm)*len(mm[0]) == 1 || len(right)*len(right[0]) == 1 {
+			return MatrixPlusTemplate(mm, right)
+		}
+
 		// Create containers
 		var sum PolynomialMatrix
 
@@ -195,6 +200,8 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 
 		return sum
 
+	case MatrixExpression:
+		return MatrixPlusTemplate(mm, right)
 	default:
 		panic(
 			smErrors.UnsupportedInputError{
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 2b89c89..c6311ba 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -147,6 +147,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 		out = ConcretizeExpression(sum)
 	case KMatrix:
+		// If either matrix acts as a scalar, then use the template
+		if len(pm)*len(pm[0]) == 1 || len(right)*len(right[0]) == 1 {
+			return MatrixPlusTemplate(pm, right).AsSimplifiedExpression()
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
@@ -160,6 +165,11 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		out = ConcretizeExpression(sum)
 
 	case PolynomialMatrix:
+		// If either matrix acts as a scalar, then use the template
+		if len(pm)*len(pm[0]) == 1 || len(right)*len(right[0]) == 1 {
+			return MatrixPlusTemplate(pm, right).AsSimplifiedExpression()
+		}
+
 		// Create containers
 		var sum [][]ScalarExpression
 
@@ -172,6 +182,10 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		}
 
 		out = ConcretizeExpression(sum)
+	case Variable:
+		out = pm.Plus(right.ToPolynomial())
+	case MatrixExpression:
+		out = MatrixPlusTemplate(pm, right)
 	default:
 		// If the right hand side is not supported, then panic
 		panic(
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index c24c969..b3a6cd1 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -138,16 +138,11 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
-		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
-		for ii, vmRow := range vm {
-			var pmRow []Polynomial
-			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
-			}
-			pmOut = append(pmOut, pmRow)
-		}
-		return pmOut
+		return MatrixPlusTemplate(vm, right)
+	case ScalarExpression:
+		return matrixPlusScalar(vm, right)
+	case MatrixExpression:
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From 173a949be991e53e4ae53fb81d57f2e91a4d7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:33 +0000
Subject: [PATCH 12/33] fix: products of variable and monomial matrices are not
 refused because of the values of entries

---
 symbolic/monomial_matrix.go |  2 +-
 symbolic/variable_matrix.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index ca952fe..de79813 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -305,7 +305,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index b3a6cd1..b9867ef 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -237,16 +237,16 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Use K case
 		out = vm.Multiply(K(right))
 	case K:
-		// Create a new matrix of polynomials.
-		var mmOut MonomialMatrix
+		// Create a new matrix of scaled variables.
+		var product [][]ScalarExpression
 		for _, vmRow := range vm {
-			var mmRow []Monomial
+			var productRow []ScalarExpression
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				productRow = append(productRow, v.Multiply(right).(ScalarExpression))
 			}
-			mmOut = append(mmOut, mmRow)
+			product = append(product, productRow)
 		}
-		out = mmOut
+		out = ConcretizeMatrixExpression(product)
 	case KVector:
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
-- 
2.43.0


From a0651bd7ab14a1c9a657c51300282b8f516f0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 13/33] fix: vectors and matrices with a single entry scale the
 other operand of a product

---
 symbolic/constant_matrix.go   |  8 +++++++-
 symbolic/constant_vector.go   | 10 ++++++++++
 symbolic/matrix_expression.go | 13 +++++++++++++
 symbolic/monomial_matrix.go   |  8 +++++++-
 symbolic/polynomial_matrix.go |  8 +++++++-
 symbolic/polynomial_vector.go |  5 +++++
 symbolic/variable_matrix.go   | 15 +++++++++++++++
 symbolic/variable_vector.go   |  5 +++++
 8 files changed, 69 insertions(+), 3 deletions(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index a3f401b..31f0533 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -256,7 +256,13 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Choose the correct output type based on the size of km
 		nR := km.Dims()[0]
-		if nR == 1 {
+		if nR*km.Dims()[1] == 1 {
+			// km acts as a scalar
+			out = right.Multiply(km[0][0])
+		} else if right.Len() == 1 {
+			// right acts as a scalar
+			out = km.Multiply(right[0].ToPolynomial())
+		} else if nR == 1 {
 			// If the output is a scalar, return a scalar
 			var prod Expression = K(0)
 			for cIndex := 0; cIndex < len(right); cIndex++ {
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..6275dc3 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -341,11 +341,21 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		out = kv.Multiply(VecDenseToKVector(right))
 
 	case KVector:
+		if kv.Len() == 1 && right.Len() > 1 {
+			// kv is a (1x1) vector and scales every element of right.
+			out = right.Multiply(kv[0])
+			break
+		}
 		// If the input is a KVector and the dimensions match
 		// then right is a (1x1) vector and can use the scalar method.
 		out = kv.Multiply(right[0])
 
 	case VariableVector:
+		if kv.Len() == 1 && right.Len() > 1 {
+			// kv is a (1x1) vector and scales every element of right.
+			out = right.Multiply(kv[0])
+			break
+		}
 		// If the input is a KVector and the dimensions match
 		// then right is a (1x1) vector and can use the scalar method.
 		out = kv.Multiply(right[0])
diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 0f59c9a..1ec31e1 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -276,6 +276,19 @@ func MatrixPlusTemplate(left MatrixExpression, right MatrixExpression) MatrixExp
 	return ConcretizeMatrixExpression(out)
 }
 
+// matrixMultiplyScalar multiplies every element of a matrix by a scalar.
+func matrixMultiplyScalar(left MatrixExpression, right ScalarExpression) MatrixExpression {
+	var out [][]ScalarExpression
+	for ii := 0; ii < left.Dims()[0]; ii++ {
+		var tempRow []ScalarExpression
+		for jj := 0; jj < left.Dims()[1]; jj++ {
+			tempRow = append(tempRow, left.At(ii, jj).Multiply(right).(ScalarExpression))
+		}
+		out = append(out, tempRow)
+	}
+	return ConcretizeMatrixExpression(out)
+}
+
 // matrixPlusScalar adds a scalar to every element of a matrix.
 func matrixPlusScalar(left MatrixExpression, right ScalarExpression) MatrixExpression {
 	var out [][]ScalarExpression
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index de79813..c7715ef 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -288,7 +288,13 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		}
 		return product
 	case VariableVector:
-		if nRows == 1 {
+		if nRows*len(mm[0]) == 1 {
+			// mm acts as a scalar
+			return right.Multiply(mm[0][0])
+		} else if right.Len() == 1 {
+			// right acts as a scalar
+			return matrixMultiplyScalar(mm, right[0])
+		} else if nRows == 1 {
 			// Output will be a scalar expression
 			var product Expression = K(0.0)
 			for ii, monomial := range mm[0] {
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index c6311ba..e51c5ca 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -289,7 +289,13 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 		nResultRows := pm.Dims()[0]
 
 		// Create product based on the number of Resulting rows
-		if nResultRows == 1 {
+		if nResultRows*len(pm[0]) == 1 {
+			// pm acts as a scalar
+			out = right.Multiply(pm[0][0])
+		} else if right.Len() == 1 {
+			// right acts as a scalar
+			out = matrixMultiplyScalar(pm, right[0])
+		} else if nResultRows == 1 {
 			// Create container
 			var product Expression = K(0)
 			for ii, tempPolynomial := range pm[0] {
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 0a24836..ad46213 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -247,6 +247,11 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		out = ConcretizeExpression(product)
 	case PolynomialVector:
 		// This should only be true if the polynomial vector is actually a polynomial.
+		if pv.Len() == 1 && right.Len() > 1 {
+			// pv is (1x1) and scales every element of the vector on the right
+			out = right.Multiply(pv[0])
+			break
+		}
 		// Convert it to a polynomial and do the multiplication as if it was with just the scalar.
 		out = pv.Multiply(right[0])
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index b9867ef..75a50a6 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -251,6 +251,14 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		// Constants
 		vmRows, vmCols := vm.Dims()[0], vm.Dims()[1]
 
+		if vmRows*vmCols == 1 {
+			// vm acts as a scalar
+			return VectorMultiplyTemplate(right, vm[0][0]).AsSimplifiedExpression()
+		} else if right.Len() == 1 {
+			// right acts as a scalar
+			return vm.Multiply(right[0])
+		}
+
 		// Compute product based on each element
 		var product []ScalarExpression
 		for ii := 0; ii < vmRows; ii++ {
@@ -271,6 +279,13 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 	case VariableVector:
 		// Output will be another vector
 		nVMCols := vm.Dims()[1]
+		if vm.Dims()[0]*nVMCols == 1 {
+			// vm acts as a scalar
+			return right.Multiply(vm[0][0])
+		} else if right.Len() == 1 {
+			// right acts as a scalar
+			return matrixMultiplyScalar(vm, right[0]).AsSimplifiedExpression()
+		}
 		var result Expression = K(0.0)
 		for ii := 0; ii < nVMCols; ii++ {
 			// Create a new vector from the ii-th column of the matrix
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index dde78f6..2346126 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -206,6 +206,11 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 	case VectorExpression:
 		// Vector of polynomials must be (1x1)
 		rightAsVE, _ := ToVectorExpression(right)
+		if vv.Len() == 1 && rightAsVE.Len() > 1 {
+			// vv is (1x1) and scales every element of the vector on the right
+			out = VectorMultiplyTemplate(rightAsVE, vv[0])
+			break
+		}
 		out = vv.Multiply(rightAsVE.AtVec(0))
 	default:
 		// Otherwise, panic
-- 
2.43.0


From 16027fc0634082ce569ea87b0ffcaab83bc09bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:53 +0000
Subject: [PATCH 14/33] fix: powers of (1x1) matrices

---
 symbolic/matrix_expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 1ec31e1..55ef89d 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,12 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// A (1x1) matrix is raised to the power like a scalar
+	if me.Dims()[0] == 1 {
+		power := me.At(0, 0).Power(exponent).AsSimplifiedExpression().(ScalarExpression)
+		return ConcretizeMatrixExpression([][]ScalarExpression{{power}})
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From 2ae3e5812bbdad7682a25b5e907b148eb2715c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:57 +0000
Subject: [PATCH 15/33] fix: a new variable never gets the identifier of a
 tracked variable

---
 symbolic/variable.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..7b4da40 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -380,6 +380,25 @@ func NewVariable(envs ...Environment) Variable {
 	return NewContinuousVariable(envs...)
 }
 
+// nextFreeID returns the first identifier, counting from the number of tracked
+// variables, that no variable tracked by the environment has. (A variable that
+// was created elsewhere and then tracked may occupy any identifier.)
+func nextFreeID(env Environment) uint64 {
+	tracked := env.AllTrackedVariables()
+	nextID := uint64(len(tracked))
+	for taken := true; taken; {
+		taken = false
+		for _, v := range tracked {
+			if v.ID == nextID {
+				taken = true
+				nextID++
+				break
+			}
+		}
+	}
+	return nextID
+}
+
 // NewContinuousVariable Creates a new continuous variable.
 func NewContinuousVariable(envs ...Environment) Variable {
 	// Constants
@@ -392,11 +411,11 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextFreeID(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       float64(-Infinity),
 		Upper:       float64(+Infinity),
 		Type:        Continuous,
@@ -423,11 +442,11 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextFreeID(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-		ID:          uint64(nextIdx),
+		ID:          nextIdx,
 		Lower:       0.0,
 		Upper:       1.0,
 		Type:        Binary,
-- 
2.43.0


From 04e39bdd92472a7bb9d044db8bbe73be542e123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:03 +0000
Subject: [PATCH 16/33] fix: the variables of a constraint are always listed in
 the same order

---
 symbolic/constraint.go | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..c924440 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -53,32 +53,15 @@ func IsConstraint(c interface{}) bool {
 
 // VariablesInThisConstraint returns a slice of all the variables in the constraint.
 func VariablesInThisConstraint(c Constraint) []Variable {
-	// Setup
-	varsMap := make(map[Variable]bool)
-
 	// Input check
 	err := c.Check()
 	if err != nil {
 		panic(err)
 	}
 
-	// Get variables from the left hand side
-	for _, v := range c.Left().Variables() {
-		varsMap[v] = true
-	}
-
-	// Get variables from the right hand side
-	for _, v := range c.Right().Variables() {
-		varsMap[v] = true
-	}
-
-	// Convert the map to a slice
-	vars := make([]Variable, 0, len(varsMap))
-	for v := range varsMap {
-		vars = append(vars, v)
-	}
-
-	return vars
+	// Get the variables from the left hand side and then the right hand side,
+	// each of them once
+	return UnionOfVariables(c.Left().Variables(), c.Right().Variables())
 }
 
 // CompileConstraintsIntoScalarConstraints This method analyzes all constraints in an OptimizationProblem and converts them all
-- 
2.43.0


From 25b9eadddb13407681640eb00677d4e0c94f0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:37 +0000
Subject: [PATCH 17/33] fix: implication between scalar constraints considers
 constants on the left and nonlinear terms

---
 symbolic/scalar_constraint.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..5bc1e56 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -317,6 +317,13 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 			otherCCoeffVector := otherC.LeftHandSide.LinearCoeff(otherC.Variables())
 			otherCCoeff := otherCCoeffVector.AtVec(0)
 
+			// The bounds below only describe linear constraints in which the
+			// variable really occurs.
+			bothAreLinear := sc.IsLinear() && otherC.IsLinear()
+			if !bothAreLinear || scCoeff == 0 || otherCCoeff == 0 {
+				return false
+			}
+
 			// Scale both constraints
 			// Note: If the coefficient is negative, then the sense of the constraint will be flipped.
 			// This is handled in the ScaleBy method.
@@ -334,6 +341,10 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				return false
 			}
 
+			// The left hand sides may contain constants, too.
+			scBound := sc.RightHandSide.Constant() - sc.LeftHandSide.Constant()
+			otherCBound := otherC.RightHandSide.Constant() - otherC.LeftHandSide.Constant()
+
 			switch sc.Sense {
 			case SenseLessThanEqual:
 				// Check the senses of otherC
@@ -341,7 +352,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseLessThanEqual:
 					// Both are <=
 					// Then the implication holds if the upper bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				default:
 					// sc is <= and otherC is either >= or ==
 					// Then the implication holds if the upper bound of sc is <= the lower bound of otherC
@@ -353,7 +364,7 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseGreaterThanEqual:
 					// Both are >=
 					// Then the implication holds if the lower bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				default:
 					// sc is >= and otherC is either <= or ==
 					// Then the implication holds if the lower bound of sc is >= the upper bound of otherC
@@ -365,15 +376,15 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 				case SenseEqual:
 					// Both are ==
 					// Then the implication holds if the bounds are equal
-					return sc.RightHandSide.Constant() == otherC.RightHandSide.Constant()
+					return scBound == otherCBound
 				case SenseLessThanEqual:
 					// sc is == and otherC is <=
 					// Then the implication holds if the bound of sc is <= the upper bound of otherC
-					return sc.RightHandSide.Constant() <= otherC.RightHandSide.Constant()
+					return scBound <= otherCBound
 				case SenseGreaterThanEqual:
 					// sc is == and otherC is >=
 					// Then the implication holds if the bound of sc is >= the lower bound of otherC
-					return sc.RightHandSide.Constant() >= otherC.RightHandSide.Constant()
+					return scBound >= otherCBound
 				}
 			default:
 				panic("unreachable code reached in ScalarConstraint.ImpliesThisIsAlsoSatisfied")
-- 
2.43.0


From eaed10444ee35da013d076a65510d509b0de7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 18/33] fix: IsNonnegativityConstraint considers constants and
 like terms on the left hand side

---
 symbolic/scalar_constraint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 5bc1e56..28781b9 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -414,6 +414,7 @@ func (sc ScalarConstraint) IsNonnegativityConstraint() bool {
 	}
 
 	simplified := sc.AsSimplifiedConstraint().(ScalarConstraint)
+	simplified.LeftHandSide = simplified.LeftHandSide.AsSimplifiedExpression().(ScalarExpression)
 
 	// Check to see if constraint contains more than 1 variable
 	if len(simplified.Variables()) != 1 {
@@ -443,7 +444,7 @@ func (sc ScalarConstraint) IsNonnegativityConstraint() bool {
 
 	// Check to see if rhs is zero
 	rhsAsK := simplified.RightHandSide.(K)
-	rhsIsZero := float64(rhsAsK) == 0
+	rhsIsZero := float64(rhsAsK)-simplified.LeftHandSide.Constant() == 0
 
 	if !rhsIsZero {
 		return false
-- 
2.43.0


From 25ba73b6766b986a626f7b9c319bb0b833d5e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 19/33] fix: Monomial.ToVariable refuses multiples of a
 variable

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index f642949..bf83d93 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -573,7 +573,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.IsVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From 4c7546802c2caa7bdf6a5aca97c5c3503632a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 20/33] fix: comparing column matrices of different length is
 reported as a dimension error

---
 smErrors/matrix_dimension_error.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smErrors/matrix_dimension_error.go b/smErrors/matrix_dimension_error.go
index 024a874..339dab9 100644
--- a/smErrors/matrix_dimension_error.go
+++ b/smErrors/matrix_dimension_error.go
@@ -205,12 +205,14 @@ func CheckDimensionsInComparison(arg1, arg2 MatrixLike, comparisonType string) e
 	if !dimsAreMatched {
 		// Return a specific type of error based on if this was a vector comparison
 		// or a matrix comparison
-		bothAreVectors := (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1)
+		vector1, arg1IsVector := arg1.(VectorLike)
+		vector2, arg2IsVector := arg2.(VectorLike)
+		bothAreVectors := arg1IsVector && arg2IsVector && (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1)
 		if bothAreVectors {
 			return VectorDimensionError{
 				Operation: fmt.Sprintf("Comparison (%v)", string(comparisonType)),
-				Arg1:      arg1.(VectorLike),
-				Arg2:      arg2.(VectorLike),
+				Arg1:      vector1,
+				Arg2:      vector2,
 			}
 		} else {
 			return MatrixDimensionError{
-- 
2.43.0


From 93db39e957654b4387231048b4819839352fc90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 21/33] fix: linear forms and simplification of constraints
 between vectors of length one

---
 symbolic/vector_constraint.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..f12a14e 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -140,8 +140,8 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	A = newLHS.LinearCoeff(wrt...)
 
@@ -205,8 +205,8 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
+	rhsWithoutConst = asVectorExpression(rhsWithoutConst.Minus(rhsWithoutConst.Constant())).(PolynomialLikeVector)
+	newLHS = asVectorExpression(newLHS.Minus(rhsWithoutConst)).(PolynomialLikeVector)
 
 	C = newLHS.LinearCoeff(wrt...)
 
@@ -275,9 +275,9 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 	}
 
 	// Create Left Hand side of all of the expressions
-	var newLHS Expression = vc.LeftHandSide.Minus(vc.LeftHandSide.Constant())
+	var newLHS Expression = asVectorExpression(vc.LeftHandSide.Minus(vc.LeftHandSide.Constant()))
 	newLHS = newLHS.Minus(
-		vc.RightHandSide.Minus(vc.RightHandSide.Constant()),
+		asVectorExpression(vc.RightHandSide.Minus(vc.RightHandSide.Constant())),
 	)
 
 	// Create Right Hand Side of only constants
@@ -287,8 +287,8 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  asVectorExpression(newLHS),
+		RightHandSide: asVectorExpression(newRHS),
 		Sense:         vc.Sense,
 	}
 }
@@ -334,3 +334,12 @@ func (vc VectorConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 
 	return false
 }
+
+// asVectorExpression Undoes the conversion of vectors of length one to scalars that
+// arithmetic on vectors performs.
+func asVectorExpression(e Expression) VectorExpression {
+	if asScalar, tf := e.(ScalarExpression); tf {
+		return ConcretizeVectorExpression([]ScalarExpression{asScalar})
+	}
+	return e.(VectorExpression)
+}
-- 
2.43.0


From a1ab5e3c457bb0dd06cc7af02c07739a27b73c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 22/33] fix: simplification of constraints between matrices
 with a single column

---
 symbolic/matrix_constraint.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..b67ec53 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -158,9 +158,9 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
+	var newLHS Expression = asMatrixExpression(mc.LeftHandSide.Minus(mc.LeftHandSide.Constant()))
 	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
+		asMatrixExpression(mc.RightHandSide.Minus(mc.RightHandSide.Constant())),
 	)
 
 	// Create Right Hand Side of only constants
@@ -170,8 +170,8 @@ func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  asMatrixExpression(newLHS),
+		RightHandSide: asMatrixExpression(newRHS),
 		Sense:         mc.Sense,
 	}
 }
@@ -220,3 +220,20 @@ func (mc MatrixConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	// If no avenues for implication were found, return false.
 	return false
 }
+
+// asMatrixExpression Undoes the conversion of matrices with a single column to vectors
+// and scalars that arithmetic on matrices performs.
+func asMatrixExpression(e Expression) MatrixExpression {
+	if asMatrix, tf := e.(MatrixExpression); tf {
+		return asMatrix
+	}
+
+	dims := e.Dims()
+	entries := make([][]ScalarExpression, dims[0])
+	for ii := range entries {
+		for jj := 0; jj < dims[1]; jj++ {
+			entries[ii] = append(entries[ii], e.At(ii, jj))
+		}
+	}
+	return ConcretizeMatrixExpression(entries)
+}
-- 
2.43.0


From d26861301caf5592912ce2f6ac236b70a39fafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 23/33] fix: VectorConstraint.Check refuses sides of different
 lengths when one length is one

---
 symbolic/vector_constraint.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index f12a14e..bfdf95f 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -71,9 +71,13 @@ func (vc VectorConstraint) Check() error {
 	}
 
 	// Check dimensions of left and right hand sides.
-	err = smErrors.CheckDimensionsInComparison(vc.Left(), vc.Right(), vc.ConstrSense().String())
-	if err != nil {
-		return err
+	// (A side of length one is not the same as a scalar here.)
+	if vc.LeftHandSide.Len() != vc.RightHandSide.Len() {
+		return smErrors.VectorDimensionError{
+			Arg1:      vc.LeftHandSide,
+			Arg2:      vc.RightHandSide,
+			Operation: fmt.Sprintf("Comparison (%v)", vc.ConstrSense()),
+		}
 	}
 
 	// All Checks Passed!
-- 
2.43.0


From c9c4251abb814a04cfa8bd4ce684beba37ceb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 24/33] fix: the inequality form of a scalar equality is
 refused

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 28781b9..b3659a4 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From 312783502ebe26fba1ee3107bcde3ee026f01168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 25/33] fix: single-column polynomial matrices can be
 subtracted from matrices

---
 symbolic/expression.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/symbolic/expression.go b/symbolic/expression.go
index 247fe9d..6bd7c01 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -117,9 +117,15 @@ func ToExpression(e interface{}) (Expression, error) {
 
 // Minus subtracts one expression (right) from another (left) and returns the resulting expression
 func Minus(left, right Expression) Expression {
-	return left.Plus(
-		right.Multiply(-1.0),
-	)
+	negated := right.Multiply(-1.0)
+	_, leftIsMatrix := left.(MatrixExpression)
+	_, rightIsMatrix := right.(MatrixExpression)
+	if leftIsMatrix && rightIsMatrix {
+		// Keep single-column matrices matrices, so that they can be added to matrices.
+		negated = asMatrixExpression(negated)
+	}
+
+	return left.Plus(negated)
 }
 
 // IsLinear Determines whether an input object is a
-- 
2.43.0


From 794cf45a420facd56435fe0d462e2b11b7399f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 26/33] fix: linear forms of constraints order their columns
 like the constraint's variables

---
 symbolic/scalar_constraint.go | 10 ++++++++++
 symbolic/vector_constraint.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index b3659a4..18f866e 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -121,6 +121,11 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		)
 	}
 
+	// Without a list of variables, the columns follow the constraint's own variables
+	if len(wrt) == 0 {
+		wrt = [][]Variable{sc.Variables()}
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
@@ -179,6 +184,11 @@ func (sc ScalarConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 		)
 	}
 
+	// Without a list of variables, the columns follow the constraint's own variables
+	if len(wrt) == 0 {
+		wrt = [][]Variable{sc.Variables()}
+	}
+
 	// Create C
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index bfdf95f..4b06bf5 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -141,6 +141,11 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		)
 	}
 
+	// Without a list of variables, the columns follow the constraint's own variables
+	if len(wrt) == 0 {
+		wrt = [][]Variable{vc.Variables()}
+	}
+
 	// Create A
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
@@ -206,6 +211,11 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 		)
 	}
 
+	// Without a list of variables, the columns follow the constraint's own variables
+	if len(wrt) == 0 {
+		wrt = [][]Variable{vc.Variables()}
+	}
+
 	// Create C
 	newLHS := vc.Left().(PolynomialLikeVector)
 	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-- 
2.43.0


From 7a9d1baebc97a02f903346d984cf35794c74c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:54 +0000
Subject: [PATCH 27/33] fix: Variable.Plus refuses a malformed right operand,
 as the other sums do

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 7b4da40..3f2da26 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From 2fecff1c79897e8b7cd8cc86092b8bc93879084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:59 +0000
Subject: [PATCH 28/33] fix: derivatives of malformed polynomial vectors and
 with respect to malformed variables are refused

---
 symbolic/polynomial_vector.go | 6 ++++++
 symbolic/variable_matrix.go   | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index ad46213..688fad0 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -386,6 +386,12 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Constants
 	derivative := make(PolynomialVector, len(pv))
 
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 75a50a6..ba7e38e 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -429,6 +429,11 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	kmOut := DenseToKMatrix(
 		ZerosMatrix(vm.Dims()[0], vm.Dims()[1]),
-- 
2.43.0


From 78c7a9a8ef6e749d21fe0be0103c5d4249185658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 29/33] fix: KMatrix.String prints balanced brackets

Every row but the first was opened twice, so the text of a matrix with more
than one row could not be read as a matrix.
---
 symbolic/constant_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 31f0533..d65d6b9 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -504,7 +504,7 @@ func (km KMatrix) String() string {
 		// Add "]," and newline if not last row
 		out += "]"
 		if ii != nR-1 {
-			out += ",\n ["
+			out += ",\n "
 		} else {
 			out += "]\n"
 		}
-- 
2.43.0


From 8c40a8c57369afb241483925f606c6456dfc56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 30/33] fix: MonomialMatrix.String separates rows by one comma

Rows were separated by two commas and the last row was followed by one, which
reads as additional empty rows.
---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index c7715ef..625e447 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -543,7 +543,7 @@ func (mm MonomialMatrix) String() string {
 				out += ", "
 			}
 		}
-		out += "],"
+		out += "]"
 		if ii != len(mm)-1 {
 			out += ",\n "
 		}
-- 
2.43.0


From 5833923891307f81383d8ef11777b1fef19616d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 31/33] fix: treat variables of different environments as
 different variables

---
 symbolic/expression.go      |  2 +-
 symbolic/monomial.go        |  2 +-
 symbolic/utils.go           |  2 +-
 symbolic/variable.go        | 22 ++++++++++++----------
 symbolic/variable_matrix.go |  2 +-
 symbolic/variable_vector.go |  2 +-
 6 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/symbolic/expression.go b/symbolic/expression.go
index 6bd7c01..48bd8af 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -86,7 +86,7 @@ func VariableIDs(e Expression) []uint64 {
 		idSlice = append(idSlice, v.ID)
 	}
 
-	return idSlice
+	return Unique(idSlice) // Variables of different environments may share an ID
 }
 
 // IsExpression Tests whether or not the input variable is one of the expression types.
diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index bf83d93..bcf506a 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -415,7 +415,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 
 	// Algorithm
 	containsOnlyOneFactor := len(m.VariableFactors) == 1
-	firstFactorMatchesV := m.VariableFactors[0].ID == v.ID
+	firstFactorMatchesV := m.VariableFactors[0].isSameVariableAs(v)
 	firstFactorHasDegreeOne := m.Exponents[0] == 1
 	if containsOnlyOneFactor && firstFactorMatchesV && firstFactorHasDegreeOne {
 		return true
diff --git a/symbolic/utils.go b/symbolic/utils.go
index 0285edd..3e84c74 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -83,7 +83,7 @@ func FindInSlice(xIn interface{}, sliceIn interface{}) (int, error) {
 		// Perform Search
 		xLocationInSliceIn := -1
 		for sliceIndex, sliceValue := range slice {
-			if x.ID == sliceValue.ID {
+			if x.isSameVariableAs(sliceValue) {
 				xLocationInSliceIn = sliceIndex
 			}
 		}
diff --git a/symbolic/variable.go b/symbolic/variable.go
index 3f2da26..367f9a6 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -19,6 +19,12 @@ type Variable struct {
 	Environment Environment
 }
 
+// isSameVariableAs determines whether two Variable objects represent the same variable.
+// IDs are only unique within an environment, so both the ID and the environment must match.
+func (v Variable) isSameVariableAs(other Variable) bool {
+	return v.ID == other.ID && v.Environment == other.Environment
+}
+
 // Variables This function returns a slice containing all unique variables in the variable expression v.
 func (v Variable) Variables() []Variable {
 	return []Variable{v}
@@ -60,7 +66,7 @@ func (v Variable) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for i, wrtVar := range wrtVars {
-		if v.ID == wrtVar.ID {
+		if v.isSameVariableAs(wrtVar) {
 			coeffOut.SetVec(i, 1.0)
 		}
 	}
@@ -100,7 +106,7 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 			},
 		}
 	case Variable:
-		if v.ID == right.ID {
+		if v.isSameVariableAs(right) {
 			out = Monomial{
 				Coefficient:     2.0,
 				VariableFactors: []Variable{v},
@@ -316,7 +322,7 @@ func (v Variable) Multiply(rightIn interface{}) Expression {
 		out = monomialOut
 	case Variable:
 		var monomialOut Monomial
-		if right.ID == v.ID {
+		if right.isSameVariableAs(v) {
 			monomialOut = Monomial{
 				Coefficient:     1.0,
 				VariableFactors: []Variable{v},
@@ -501,7 +507,7 @@ func (v Variable) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
-	if v.ID == vIn.ID {
+	if v.isSameVariableAs(vIn) {
 		return K(1.0)
 	} else {
 		return K(0.0)
@@ -537,12 +543,8 @@ func (v Variable) Substitute(vIn Variable, seIn ScalarExpression) Expression {
 	}
 
 	// Algorithm
-	// Replace the variable if:
-	// 1. The IDs are the same
-	// 2. The environment is the same
-	idsMatch := v.ID == vIn.ID
-	envsMatch := v.Environment == vIn.Environment
-	if idsMatch && envsMatch {
+	// Replace the variable if it is the same one (i.e., its ID and environment match)
+	if v.isSameVariableAs(vIn) {
 		return seIn
 	} else {
 		return v
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index ba7e38e..573a397 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -444,7 +444,7 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 	// corresponding element in the output matrix to 1.
 	for ii, vmRow := range vm {
 		for jj, vmElt := range vmRow {
-			if vmElt.ID == v.ID {
+			if vmElt.isSameVariableAs(v) {
 				kmOut[ii][jj] = K(1)
 			}
 		}
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 2346126..563bc1a 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -368,7 +368,7 @@ func (vv VariableVector) DerivativeWrt(vIn Variable) Expression {
 
 	// Algorithm
 	for ii, element := range vv {
-		if element.ID == vIn.ID {
+		if element.isSameVariableAs(vIn) {
 			vecOut.SetVec(ii, 1)
 		}
 	}
-- 
2.43.0


From d7529271b07afff87d43f7268598cb98381484e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 32/33] fix: substitute a variable according to a map by its
 identity, not by its attributes

---
 symbolic/variable.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 367f9a6..3eb877d 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -567,9 +567,17 @@ func (v Variable) SubstituteAccordingTo(subMap map[Variable]Expression) Expressi
 	// Algorithm
 	if e, ok := subMap[v]; ok {
 		return e
-	} else {
-		return v
 	}
+
+	// The key may describe the same variable with other attributes (e.g., after
+	// its bounds were changed)
+	for key, e := range subMap {
+		if key.isSameVariableAs(v) {
+			return e
+		}
+	}
+
+	return v
 }
 
 // Power Computes the power of the variable.
-- 
2.43.0


From 36ae10f1a0cbff8d5229374611ad07ef59a6df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 33/33] fix: monomials that repeat a variable or have a zero
 exponent

---
 symbolic/monomial.go   | 62 +++++++++++++++++++++++++++++++++++++++---
 symbolic/polynomial.go |  2 +-
 2 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index bcf506a..a617757 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -38,9 +38,52 @@ func (m Monomial) Check() error {
 }
 
 // Variables returns the unique variables in the monomial.
-// TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	return m.combineFactors().VariableFactors
+}
+
+// combineFactors returns the same monomial with every variable listed once and
+// without factors that have the exponent zero.
+func (m Monomial) combineFactors() Monomial {
+	// Nothing has to be done for most monomials (and malformed ones are left as they are)
+	if m.Check() != nil || m.factorsAreCombined() {
+		return m
+	}
+
+	// Collect the exponents of each variable
+	variables := UniqueVars(m.VariableFactors)
+	exponents := make([]int, len(variables))
+	for ii, variable := range m.VariableFactors {
+		foundIndex, _ := FindInSlice(variable, variables)
+		exponents[foundIndex] += m.Exponents[ii]
+	}
+
+	// Keep the factors whose exponent is not zero
+	out := Monomial{Coefficient: m.Coefficient}
+	for ii, variable := range variables {
+		if exponents[ii] != 0 {
+			out.VariableFactors = append(out.VariableFactors, variable)
+			out.Exponents = append(out.Exponents, exponents[ii])
+		}
+	}
+
+	return out
+}
+
+// factorsAreCombined returns true if every variable of the monomial is listed once
+// and no factor has the exponent zero.
+func (m Monomial) factorsAreCombined() bool {
+	for ii, variable := range m.VariableFactors {
+		if m.Exponents[ii] == 0 {
+			return false
+		}
+		for _, earlier := range m.VariableFactors[:ii] {
+			if variable.isSameVariableAs(earlier) {
+				return false
+			}
+		}
+	}
+	return true
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
@@ -318,7 +361,7 @@ func (m Monomial) Comparison(rhsIn interface{}, sense ConstrSense) Constraint {
 // Constant Returns the constant component in the scalar monomial.
 // This should be zero unless there are no variables present. Then it will be the coefficient.
 func (m Monomial) Constant() float64 {
-	if len(m.VariableFactors) == 0 {
+	if len(m.combineFactors().VariableFactors) == 0 {
 		return m.Coefficient
 	} else {
 		return 0
@@ -378,7 +421,7 @@ func (m Monomial) IsConstant() bool {
 	}
 
 	// Algorithm
-	return len(m.VariableFactors) == 0
+	return len(m.combineFactors().VariableFactors) == 0
 }
 
 // IsZero Returns true if the monomial defines the constant zero.
@@ -407,6 +450,9 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 		panic(err)
 	}
 
+	// Collect repeated factors and drop factors with exponent zero
+	m = m.combineFactors()
+
 	// If the monomial is a constant, then it is not a variable
 	// return false
 	if m.IsConstant() {
@@ -457,6 +503,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	}
 
 	// Algorithm
+	m, mIn = m.combineFactors(), mIn.combineFactors()
 	if len(m.VariableFactors) != len(mIn.VariableFactors) {
 		return false
 	}
@@ -497,6 +544,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
+	m = m.combineFactors()
 	foundIndex, _ := FindInSlice(vIn, m.VariableFactors)
 	if foundIndex == -1 {
 		// If vIn is not in the monomial, then the derivative is zero
@@ -568,6 +616,9 @@ func (m Monomial) ToVariable() Variable {
 		panic(err)
 	}
 
+	// Collect repeated factors and drop factors with exponent zero
+	m = m.combineFactors()
+
 	// Check that VariableFactors is not empty
 	if len(m.VariableFactors) == 0 {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
@@ -736,6 +787,9 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 	}
 
 	// Algorithm
+	// - Collect repeated factors and drop factors with exponent zero
+	m = m.combineFactors()
+
 	// - If the monomial is a constant, return the constant
 	if m.IsConstant() {
 		return K(m.Coefficient)
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index d94470a..31bfb5c 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -505,7 +505,7 @@ func (p Polynomial) Simplify() Polynomial {
 				continue
 			}
 			// Otherwise, add the monomial to the slice of non-constant monomials
-			nonConstantMonomials = append(nonConstantMonomials, monomial)
+			nonConstantMonomials = append(nonConstantMonomials, monomial.combineFactors())
 		}
 	}
 	// If the constant monomial is not zero and there are no other monomials,
-- 
2.43.0

