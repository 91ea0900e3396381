From 1ec94f6c9e94df3c145b845aafe53c735e444bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 01/47] fix: SetRow of the 2-D array matrix slices past the row
 for any row but the first

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 08db068acf09932e7c4520f0c2b1e833849ba6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 02/47] fix: matrices dereference a nil vector when given a
 RealVector that is not an ArrayRealVector

---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..dc9dd0c 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -743,8 +743,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -784,8 +784,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 6f394490aca917def651e11f4c61cdf08b50b540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 03/47] fix: equalsWithULP uses a 32-bit sign mask, so 0 and -0
 differ and the order of the arguments matters

---
 utils.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..1e37046 100644
--- a/utils.go
+++ b/utils.go
@@ -22,14 +22,9 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
-)
-
-var (
-	positive_zero_float64      float64 = 0.0
-	negative_zero_float64      float64 = -positive_zero_float64
-	positive_zero_float64_bits         = math.Float64bits(positive_zero_float64)
-	negative_zero_float64_bits         = math.Float64bits(negative_zero_float64)
+	sgn_mask_float             uint64 = 1 << 63
+	positive_zero_float64_bits uint64 = 0
+	negative_zero_float64_bits uint64 = 1 << 63
 )
 
 func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException bool) bool {
@@ -87,16 +82,21 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		if xInt < yInt {
+			isEqual = yInt-xInt <= uint64(maxUlps)
+		} else {
+			isEqual = xInt-yInt <= uint64(maxUlps)
+		}
 	} else {
 		// number have opposite signs, take care of overflow
 		var deltaPlus, deltaMinus uint64
 		if xInt < yInt {
-			deltaPlus = yInt - positive_zero_float64_bits
-			deltaMinus = xInt - negative_zero_float64_bits
-		} else {
+			// only y has the sign bit set
 			deltaPlus = xInt - positive_zero_float64_bits
 			deltaMinus = yInt - negative_zero_float64_bits
+		} else {
+			deltaPlus = yInt - positive_zero_float64_bits
+			deltaMinus = xInt - negative_zero_float64_bits
 		}
 
 		if deltaPlus > uint64(maxUlps) {
-- 
2.43.0


From a26443d49ff9c514b3ad4903adb1154cf4eb43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 04/47] fix: Projection overwrites the vector it projects onto

---
 real_vector.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..2b22297 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,13 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	proj, err := NewArrayRealVectorCopy(dest)
+	if err != nil {
+		panic(err)
+	}
+
+	proj.MapMultiply(VecDotProduct(src, dest) / norm2)
+	return proj
 }
 
 /**
-- 
2.43.0


From ac95b981bb5060a26b491fc6b7ee3a65d89c0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 05/47] fix: joining two vectors drops the second one

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 16bbabb0db92eac0fa609c45dfb692fc93431f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 06/47] fix: QR Householder matrix is NaN below a zero column

---
 qr_decomposition.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..63eec17 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -251,7 +251,9 @@ func (qrd *QRDecomposition) H() RealMatrix {
 		for i := 0; i < m; i++ {
 			ha[i] = make([]float64, n)
 			for j := 0; j < int(math.Min(float64(i+1), float64(n))); j++ {
-				ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				if qrd.rDiag[j] != 0.0 { // otherwise nothing was reflected
+					ha[i][j] = qrd.qrt[j][i] / -qrd.rDiag[j]
+				}
 			}
 		}
 		var err error
-- 
2.43.0


From dd235adef49ef6836ee0f7e2c4e7a53f85a833e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 07/47] fix: rank-revealing QR reports rank 1 for the zero
 matrix

---
 rrqr_decomposition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..86ff918 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -135,6 +135,9 @@ func (rrqrd *RRQRDecomposition) Rank(dropThreshold float64) int {
 	rank := 1
 	lastNorm := MatFrobeniusNorm(r)
 	rNorm := lastNorm
+	if rNorm == 0 {
+		return 0
+	}
 	for rank < int(math.Min(float64(rows), float64(columns))) {
 		thisNorm := MatFrobeniusNorm(r.SubMatrix(rank, rows-1, rank, columns-1))
 		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
-- 
2.43.0


From 835b43753c85a6e3f0717584ab538f38358a70c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 08/47] fix: rectangular Cholesky accepts matrices that are not
 square

---
 rectangular_cholesky_decomposition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..5d4d8c5 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,10 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
+
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0


From 03bb07230c64520e8a14dabb0b2f19f61d5c0398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 09/47] fix: singular vectors lose orthogonality when the
 reduction leaves residues near underflow

---
 singular_value_decomposition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..2901f64 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -84,6 +84,10 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k; i < m; i++ {
 				ans.singularValues[k] = math.Hypot(ans.singularValues[k], A[i][k])
 			}
+			if ans.singularValues[k] < tiny_svd {
+				// what is left is too small for an accurate reflection
+				ans.singularValues[k] = 0
+			}
 			if ans.singularValues[k] != 0 {
 				if A[k][k] < 0 {
 					ans.singularValues[k] = -ans.singularValues[k]
@@ -126,6 +130,9 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 			for i := k + 1; i < n; i++ {
 				e[k] = math.Hypot(e[k], e[i])
 			}
+			if e[k] < tiny_svd {
+				e[k] = 0
+			}
 			if e[k] != 0 {
 				if e[k+1] < 0 {
 					e[k] = -e[k]
-- 
2.43.0


From e2b488c88215e51422dfefc1cd6d96cadfb703e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 10/47] fix: SVD rank and pseudo-inverse drop singular values
 below 1e-8 whatever the norm

---
 singular_value_decomposition.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 2901f64..456f6e0 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -23,6 +23,8 @@ import (
 const (
 	eps_svd  = 2.220446049250313e-16
 	tiny_svd = 1.6033346880071782e-291
+	// smallest positive normal number
+	safemin_svd = 2.2250738585072014e-308
 )
 
 /**
@@ -451,7 +453,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(safemin_svd))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 4c839cc8d1a9b49abc08c8407aab159d5637339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 11/47] fix: SVD covariance of a wide matrix is cut to its row
 count

---
 singular_value_decomposition.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 456f6e0..a67fa30 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -573,9 +573,10 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		panic(numberIsTooLargeErrorf(too_large_cutoff_singular_value, minSingularValue, svd.singularValues[0], true))
 	}
 
+	n := svd.V().RowDimension()
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, n)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -584,7 +585,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, n-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From 8a82f0139b80535205f968a4f7967516e520da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 12/47] fix: Householder reflectors of vectors next to
 underflow give NaN factors

---
 bidiagonal_transformer.go  | 24 ++++++++++++++++--------
 qr_decomposition.go        |  4 +++-
 tridiagonal_transformer.go | 16 +++++++---------
 utils.go                   | 16 ++++++++++++++++
 4 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/bidiagonal_transformer.go b/bidiagonal_transformer.go
index e6e31cf..f39f8c6 100644
--- a/bidiagonal_transformer.go
+++ b/bidiagonal_transformer.go
@@ -200,9 +200,9 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 		hK := bdt.householderVectors[k]
 		var a float64
 		if hK[k] > 0 {
-			a = -math.Sqrt(xNormSqr)
+			a = -reflectorNorm(xNormSqr)
 		} else {
-			a = math.Sqrt(xNormSqr)
+			a = reflectorNorm(xNormSqr)
 		}
 
 		bdt.main[k] = a
@@ -220,6 +220,8 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 					hI[j] -= alpha * hI[k]
 				}
 			}
+		} else {
+			hK[k] = 0
 		}
 
 		if k < n-1 {
@@ -231,9 +233,9 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 			}
 			var b float64
 			if hK[k+1] > 0 {
-				b = -math.Sqrt(xNormSqr)
+				b = -reflectorNorm(xNormSqr)
 			} else {
-				b = math.Sqrt(xNormSqr)
+				b = reflectorNorm(xNormSqr)
 			}
 			bdt.secondary[k] = b
 			if b != 0.0 {
@@ -249,6 +251,8 @@ func (bdt *BiDiagonalTransformer) transformToUpperBiDiagonal() {
 						hI[j] -= beta * hK[j]
 					}
 				}
+			} else {
+				hK[k+1] = 0
 			}
 		}
 	}
@@ -267,9 +271,9 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 		}
 		var a float64
 		if hK[k] > 0 {
-			a = -math.Sqrt(xNormSqr)
+			a = -reflectorNorm(xNormSqr)
 		} else {
-			a = math.Sqrt(xNormSqr)
+			a = reflectorNorm(xNormSqr)
 		}
 		bdt.main[k] = a
 		if a != 0.0 {
@@ -285,6 +289,8 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 					hI[j] -= alpha * hK[j]
 				}
 			}
+		} else {
+			hK[k] = 0
 		}
 
 		if k < m-1 {
@@ -297,9 +303,9 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 			}
 			var b float64
 			if hKp1[k] > 0 {
-				b = -math.Sqrt(xNormSqr)
+				b = -reflectorNorm(xNormSqr)
 			} else {
-				b = math.Sqrt(xNormSqr)
+				b = reflectorNorm(xNormSqr)
 			}
 			bdt.secondary[k] = b
 			if b != 0.0 {
@@ -316,6 +322,8 @@ func (bdt *BiDiagonalTransformer) transformToLowerBiDiagonal() {
 						hI[j] -= beta * hI[k]
 					}
 				}
+			} else {
+				hKp1[k] = 0
 			}
 		}
 
diff --git a/qr_decomposition.go b/qr_decomposition.go
index 63eec17..3341e8d 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -92,7 +92,7 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
 		c := qrtMinor[row]
 		xNormSqr += c * c
 	}
-	a := math.Sqrt(xNormSqr)
+	a := reflectorNorm(xNormSqr)
 	if qrtMinor[minor] > 0 {
 		a *= -1
 	}
@@ -136,6 +136,8 @@ func (qrd *QRDecomposition) performHouseholderReflection(minor int, matrix [][]f
 				qrtCol[row] -= alpha * qrtMinor[row]
 			}
 		}
+	} else {
+		qrtMinor[minor] = 0
 	}
 }
 
diff --git a/tridiagonal_transformer.go b/tridiagonal_transformer.go
index 706164e..d658604 100644
--- a/tridiagonal_transformer.go
+++ b/tridiagonal_transformer.go
@@ -16,10 +16,6 @@
  */
 package linear
 
-import (
-	"math"
-)
-
 /**
  * Class transforming a symmetrical matrix to tridiagonal shape.
  * <p>A symmetrical m &times; m matrix A can be written as the product of three matrices:
@@ -194,7 +190,7 @@ func (tdf *TriDiagonalTransformer) transform() {
 			xNormSqr += c * c
 		}
 
-		a := math.Sqrt(xNormSqr)
+		a := reflectorNorm(xNormSqr)
 		if hK[k+1] > 0 {
 			a *= -1
 		}
@@ -225,16 +221,16 @@ func (tdf *TriDiagonalTransformer) transform() {
 				z[i] = beta * (z[i] + zI)
 			}
 
-			// compute gamma = beta vT z / 2
+			// compute gamma = a beta vT z / 2 (without the factor a it could overflow)
 			var gamma float64
 			for i := k + 1; i < m; i++ {
 				gamma += z[i] * hK[i]
 			}
-			gamma *= beta / 2
+			gamma /= -2 * hK[k+1]
 
-			// compute z = z - gamma v
+			// compute z = z - gamma v / a
 			for i := k + 1; i < m; i++ {
-				z[i] -= gamma * hK[i]
+				z[i] -= gamma * (hK[i] / a)
 			}
 
 			// update matrix: A = A - v zT - z vT
@@ -245,6 +241,8 @@ func (tdf *TriDiagonalTransformer) transform() {
 					hI[j] -= hK[i]*z[j] + z[i]*hK[j]
 				}
 			}
+		} else {
+			hK[k+1] = 0
 		}
 	}
 	tdf.main[m-1] = tdf.householderVectors[m-1][m-1]
diff --git a/utils.go b/utils.go
index 1e37046..2a6d875 100644
--- a/utils.go
+++ b/utils.go
@@ -25,8 +25,24 @@ const (
 	sgn_mask_float             uint64 = 1 << 63
 	positive_zero_float64_bits uint64 = 0
 	negative_zero_float64_bits uint64 = 1 << 63
+
+	// squared norm below which a vector is too small to build a reflector from:
+	// the products the reflector is applied with would underflow
+	min_reflector_norm_sqr = 0x1p-1010
 )
 
+/*
+ * Returns the norm of the vector a Householder reflector is built from, given
+ * its squared norm, or 0 when the vector is so small that no reflector that is
+ * orthogonal to working precision can be built from it.
+ */
+func reflectorNorm(normSqr float64) float64 {
+	if normSqr < min_reflector_norm_sqr {
+		return 0
+	}
+	return math.Sqrt(normSqr)
+}
+
 func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException bool) bool {
 	rows := matrix.RowDimension()
 	if rows != matrix.ColumnDimension() {
-- 
2.43.0


From f0f9776eae8d28445864d72825f1338a5559e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 13/47] fix: Hessenberg transform is not orthogonal when a
 column is next to underflow

---
 hessenberg_transformer.go | 4 +++-
 utils.go                  | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/hessenberg_transformer.go b/hessenberg_transformer.go
index 811c201..1079f90 100644
--- a/hessenberg_transformer.go
+++ b/hessenberg_transformer.go
@@ -181,7 +181,9 @@ func (hs *HessenbergTransformer) transform() {
 			scale += math.Abs(hs.householderVectors[i][m-1])
 		}
 
-		if !equals(scale, 0) {
+		if scale < min_reflector_scale {
+			hs.householderVectors[m][m-1] = 0
+		} else {
 			// Compute Householder transformation.
 			h := 0.
 			for i := high; i >= m; i-- {
diff --git a/utils.go b/utils.go
index 2a6d875..f196d3e 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,9 @@ const (
 	// squared norm below which a vector is too small to build a reflector from:
 	// the products the reflector is applied with would underflow
 	min_reflector_norm_sqr = 0x1p-1010
+
+	// the same for a vector that is scaled before it is squared
+	min_reflector_scale = 0x1p-966
 )
 
 /*
-- 
2.43.0


From a1d033ad4589b7d51bdf27f1ecc32c6f2fe804e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 14/47] fix: Schur transform of a zero matrix is NaN

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..94b837b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -221,7 +221,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
 			break
 		}
 		l--
-- 
2.43.0


From b1039db32d9814150835121003291389dbc84153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 15/47] fix: Schur transform skips the reflections of a matrix
 of small norm

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 94b837b..a691af1 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -329,7 +329,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0.0 {
 				continue
 			}
 			p /= shift.x
-- 
2.43.0


From 474097f20e25e985c4fa1b9455aae20ad57f731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 16/47] fix: Schur transform leaves converged sub-diagonal
 elements in T

---
 schur_transformer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schur_transformer.go b/schur_transformer.go
index a691af1..3535233 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -126,6 +126,9 @@ func (st *SchurTransformer) transform() {
 
 		// Look for single small sub-diagonal element
 		il := st.findSmallSubDiagonalElement(iu, norm)
+		if il > 0 {
+			st.matrixT[il][il-1] = 0
+		}
 
 		// Check for convergence
 		if il == iu {
@@ -169,6 +172,8 @@ func (st *SchurTransformer) transform() {
 					st.matrixT[i][iu] = q*st.matrixT[i][iu] - p*z
 				}
 
+				st.matrixT[iu][iu-1] = 0
+
 				// Accumulate transformations
 				for i := 0; i <= n-1; i++ {
 					z = st.matrixP[i][iu-1]
-- 
2.43.0


From 369c763d3e293fd31bcdd53ba3f510aa3cd50ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 17/47] fix: Schur transform does not converge on some matrices
 with multiple eigenvalues

---
 schur_transformer.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 3535233..541f649 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -22,6 +22,10 @@ import (
 
 var (
 	max_iter_st = 100
+
+	// after this many iterations on an eigenvalue, a sub-diagonal element need
+	// only be small with respect to the whole matrix, not to its neighbours
+	lenient_iter_st = 10
 )
 
 /**
@@ -125,7 +129,7 @@ func (st *SchurTransformer) transform() {
 	for iu >= 0 {
 
 		// Look for single small sub-diagonal element
-		il := st.findSmallSubDiagonalElement(iu, norm)
+		il := st.findSmallSubDiagonalElement(iu, iteration, norm)
 		if il > 0 {
 			st.matrixT[il][il-1] = 0
 		}
@@ -219,11 +223,11 @@ func (st *SchurTransformer) norm() float64 {
 /**
  * Find the first small sub-diagonal element and returns its index.
  */
-func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float64) int {
+func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx, iteration int, norm float64) int {
 	l := startIdx
 	for l > 0 {
 		s := math.Abs(st.matrixT[l-1][l-1]) + math.Abs(st.matrixT[l][l])
-		if s == 0.0 {
+		if s == 0.0 || iteration >= lenient_iter_st {
 			s = norm
 		}
 		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
@@ -278,6 +282,19 @@ func (st *SchurTransformer) computeShift(l, idx, iteration int, shift *ShiftInfo
 			shift.w = 0.964
 		}
 	}
+
+	// Of two real shifts only the one closer to the last diagonal element is
+	// used, twice: the pair may not converge when the eigenvalues are multiple
+	p := (shift.y - shift.x) / 2.0
+	if q := p*p + shift.w; q > 0.0 {
+		q = math.Sqrt(q)
+		if p < 0.0 {
+			q = -q
+		}
+		shift.x -= shift.w / (p + q)
+		shift.y = shift.x
+		shift.w = 0.
+	}
 }
 
 /**
-- 
2.43.0


From c679179ade6a86ed0224c9ed69e05c8f5408641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 18/47] fix: Schur transform overflows on a sub-diagonal
 element next to underflow

---
 schur_transformer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 541f649..8bc7e0a 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -26,6 +26,10 @@ var (
 	// after this many iterations on an eigenvalue, a sub-diagonal element need
 	// only be small with respect to the whole matrix, not to its neighbours
 	lenient_iter_st = 10
+
+	// a sub-diagonal element up to this size is taken for zero in any case:
+	// dividing by it could overflow
+	negligible_st = 0x1p-505
 )
 
 /**
@@ -230,7 +234,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx, iteration int,
 		if s == 0.0 || iteration >= lenient_iter_st {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= math.Max(doubleeps*s, negligible_st) {
 			break
 		}
 		l--
@@ -338,6 +342,11 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 	p := hVec[0]
 	q := hVec[1]
 	r := hVec[2]
+	if x := math.Abs(p) + math.Abs(q) + math.Abs(r); x != 0.0 {
+		p /= x
+		q /= x
+		r /= x
+	}
 
 	for k := im; k <= iu-1; k++ {
 		notlast := k != (iu - 1)
-- 
2.43.0


From 153fef724b0148e6027fed9d6fe11b7908d7f85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 19/47] fix: eigen decomposition ignores imaginary parts in the
 determinant

---
 eigen_decomposition.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..79e5910 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -261,8 +261,15 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  */
 func (ed *EigenDecomposition) Determinant() float64 {
 	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	for i := 0; i < len(ed.realEigenvalues); i++ {
+		re, im := ed.realEigenvalues[i], ed.imagEigenvalues[i]
+		if im == 0 {
+			determinant *= re
+		} else {
+			// a conjugate pair
+			determinant *= re*re + im*im
+			i++
+		}
 	}
 	return determinant
 }
-- 
2.43.0


From dc267c6c32d3e5ce2241eef5c374bc654ad33764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 20/47] fix: eigen decomposition of matrices of small norm or
 with small imaginary parts is wrong

---
 eigen_decomposition.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 79e5910..ba637b9 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -167,9 +167,9 @@ func (ed *EigenDecomposition) D() RealMatrix {
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
-			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
+			if ed.imagEigenvalues[i] > 0 {
 				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
-			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+			} else if ed.imagEigenvalues[i] < 0 {
 				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
@@ -211,7 +211,7 @@ func (ed *EigenDecomposition) VT() RealMatrix {
  */
 func (ed *EigenDecomposition) HasComplexEigenvalues() bool {
 	for i := 0; i < len(ed.imagEigenvalues); i++ {
-		if !equalsWithError(ed.imagEigenvalues[i], 0.0, eps_ed) {
+		if ed.imagEigenvalues[i] != 0.0 {
 			return true
 		}
 	}
@@ -511,7 +511,7 @@ func (ed *EigenDecomposition) transformToSchur(matrix RealMatrix) (*SchurTransfo
 	ed.imagEigenvalues = make([]float64, len(matT))
 
 	for i := 0; i < len(ed.realEigenvalues); i++ {
-		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, eps_ed) {
+		if i == (len(ed.realEigenvalues)-1) || matT[i+1][i] == 0.0 {
 			ed.realEigenvalues[i] = matT[i][i]
 		} else {
 			x := matT[i+1][i+1]
@@ -545,7 +545,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 	}
 
 	// we can not handle a matrix with zero norm
-	if equalsWithError(norm, 0.0, eps_ed) {
+	if norm == 0.0 {
 		return mathArithmeticErrorf(zero_norm)
 	}
 
@@ -567,7 +567,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				for j := l; j <= idx; j++ {
 					r += matrixT[i][j] * matrixT[j][idx]
 				}
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					s = r
 				} else {
@@ -627,7 +627,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				}
 				w := matrixT[i][i] - p
 
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					r = ra
 					s = sa
-- 
2.43.0


From eabb89eea9cc777e8e3c5f04bae68c589f964f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 21/47] fix: eigenvectors are NaN when two eigenvalues differ
 by next to nothing

---
 eigen_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index ba637b9..d837f78 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -573,7 +573,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				} else {
 					l = i
 					if equals(ed.imagEigenvalues[i], 0.0) {
-						if w != 0.0 {
+						if math.Abs(w) > negligible_st {
 							matrixT[i][idx] = -r / w
 						} else {
 							matrixT[i][idx] = -r / (doubleeps * norm)
-- 
2.43.0


From 42b7c17c5e4468e9275bb6e92703b091fd7e6943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 22/47] fix: rank-revealing QR cannot invert a matrix that is
 not square

---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 86ff918..0e91288 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -184,7 +184,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From e7ad1e127f9426c7aa9cf12445068f67c0b91b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 23/47] fix: SVD solver hands out the pseudo-inverse it solves
 with

---
 singular_value_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index a67fa30..b6357ae 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -686,5 +686,5 @@ func (svds *svDecompositionSolver) IsNonSingular() bool {
 }
 
 func (svds *svDecompositionSolver) Inverse() RealMatrix {
-	return svds.pseudoInverse
+	return svds.pseudoInverse.Copy()
 }
-- 
2.43.0


From 4a0eb8222e479375be9440ef6a250ac0ff206d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:41 +0000
Subject: [PATCH 24/47] fix: DiagonalMatrix checks entry indices and submatrix
 ranges

---
 diagonal_matrix.go | 57 +++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..c465669 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -200,10 +200,11 @@ func (dm *DiagonalMatrix) At(row, column int) float64 {
 }
 
 func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] = value
 	} else {
 		if err := dm.ensureZero(value); err != nil {
@@ -213,10 +214,11 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 }
 
 func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] += increment
 	} else {
 		if err := dm.ensureZero(increment); err != nil {
@@ -234,11 +236,12 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 }
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	// we don't care about non-diagonal elements for multiplication
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
@@ -575,10 +578,18 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkRowIndex(dm, row); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, column); err != nil {
+		panic(err)
+	}
+	if err := checkRowIndex(dm, nRows+row-1); err != nil {
+		panic(err)
+	}
+	if err := checkColumnIndex(dm, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +599,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +689,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +714,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +751,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +764,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From 172c1a5e1b86a81fb5665861ae3da6f82ccfebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 25/47] fix: SetColumnVector of Array2DRowRealMatrix reports a
 column out of range

---
 array_2d_row_real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..a66c21b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,7 +795,9 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
-- 
2.43.0


From 28329dbc1ce27e16dc29ee9ef47450aaf3d0e150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 26/47] fix: SetSubMatrix of an empty Array2DRowRealMatrix
 checks its arguments before allocating

---
 array_2d_row_real_matrix.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index a66c21b..d848a0a 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -299,17 +299,27 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 			panic(mathIllegalStateErrorf(first_columns_not_initialized_yet, column))
 		}
 
-		a2drrm.data = make([][]float64, len(subMatrix))
+		if row < 0 {
+			panic(outOfRangeErrorf(row_index, float64(row), 0, 0))
+		}
 
-		for i := 0; i < nRows; i++ {
-			a2drrm.data[i] = make([]float64, nCols)
+		if column < 0 {
+			panic(outOfRangeErrorf(column_index, float64(column), 0, 0))
 		}
 
-		for i := 0; i < len(a2drrm.data); i++ {
+		for i := 0; i < nRows; i++ {
 			if len(subMatrix[i]) != nCols {
 				panic(dimensionsMismatchSimpleErrorf(len(subMatrix[i]), nCols))
 			}
+		}
 
+		a2drrm.data = make([][]float64, len(subMatrix))
+
+		for i := 0; i < nRows; i++ {
+			a2drrm.data[i] = make([]float64, nCols)
+		}
+
+		for i := 0; i < len(a2drrm.data); i++ {
 			copy(a2drrm.data[i+row][column:column+nCols], subMatrix[i][0:nCols])
 		}
 	} else {
-- 
2.43.0


From f05619f74a79bcd282c84f9f77c653e2e9f8432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 27/47] fix: CopySubMatrix functions check every row of the
 destination before writing to it

---
 real_matrix.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..b5f1e2f 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -402,11 +402,11 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
-	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
-		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
+	if len(destination) < rowsCount {
+		panic(dimensionsMismatchSimpleErrorf(len(destination), rowsCount))
 	}
 
-	for i := 1; i < rowsCount; i++ {
+	for i := 0; i < rowsCount; i++ {
 		if len(destination[i]) < columnsCount {
 			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), rowsCount, columnsCount))
 		}
@@ -428,15 +428,18 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
-	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
-		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+	if len(destination) < len(selectedRows) {
+		panic(dimensionsMismatchSimpleErrorf(len(destination), len(selectedRows)))
 	}
 
 	for i := 0; i < len(selectedRows); i++ {
-		destinationI := destination[i]
-		if len(destinationI) < nCols {
-			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+		if len(destination[i]) < nCols {
+			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), len(selectedRows), len(selectedColumns)))
 		}
+	}
+
+	for i := 0; i < len(selectedRows); i++ {
+		destinationI := destination[i]
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
 		}
-- 
2.43.0


From e2dc86553642a2756177dfc1f98e8f77a8f8c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 28/47] fix: block and default matrix constructors and
 SetSubMatrix refuse slices of no rows and block data of the wrong count

---
 block_real_matrix.go | 13 +++++++++++++
 real_matrix.go       |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index dc9dd0c..fd6ccc2 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,12 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if rawData == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(rawData) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
@@ -99,6 +105,9 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
 	ans.blocks = blockData
+	if len(blockData) != ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
 
 	var index int
 	for iBlock := 0; iBlock < ans.blockRows; iBlock++ {
@@ -545,6 +554,10 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
+
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
diff --git a/real_matrix.go b/real_matrix.go
index b5f1e2f..6db59fb 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,13 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	if data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From 7e1263b77f12e266c179dd5cc46303f4e5090967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 29/47] fix: vector sizes and sub-vector lengths are checked
 before allocating

---
 array_real_vector.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..83bebb4 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -30,6 +30,10 @@ type ArrayRealVector struct {
  * @param size Size of the vector.
  */
 func NewSizedArrayRealVector(size int) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     return &ArrayRealVector{data: make([]float64, size)}, nil
 }
 
@@ -100,6 +104,10 @@ func NewArrayRealVector(d []float64, copyArray bool) (*ArrayRealVector, error) {
  * @param preset All entries will be set with this value.
  */
 func NewSizedArrayRealVectorWithPreset(size int, preset float64) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     ans := &ArrayRealVector{data: make([]float64, size)}
     for i := 0; i < size; i++ {
         ans.data[i] = preset
@@ -404,17 +412,17 @@ func (arv *ArrayRealVector) SubVector(index, n int) RealVector {
         panic(notPositiveErrorf(number_of_elements_should_be_positive, float64(n)))
     }
 
-    out, err := NewSizedArrayRealVector(n)
+    err := checkIndex(arv, index)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index)
+    err = checkIndex(arv, index+n-1)
     if err != nil {
         panic(err)
     }
 
-    err = checkIndex(arv, index+n-1)
+    out, err := NewSizedArrayRealVector(n)
     if err != nil {
         panic(err)
     }
-- 
2.43.0


From 94ebdd3f382fcec0763dd7d8b0b39a700784becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 30/47] fix: NewEigenDecompositionFromTridiagonal checks the
 lengths of its slices

---
 eigen_decomposition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index d837f78..701ef81 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -102,6 +102,13 @@ func NewEigenDecomposition(matrix RealMatrix) (*EigenDecomposition, error) {
  * matrix.  The Householder matrix is assumed to be the identity matrix.
  */
 func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDecomposition, error) {
+	if len(main) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	if len(secondary) < len(main)-1 {
+		return nil, dimensionsMismatchSimpleErrorf(len(secondary), len(main)-1)
+	}
+
 	ans := new(EigenDecomposition)
 	ans.isSymmetric = true
 	ans.main = append([]float64{}, main...)
-- 
2.43.0


From fc7481e1759a0976556a8c021ea33ebebba546ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 31/47] fix: DiagonalMatrix stores no part of a row, column or
 submatrix it refuses

---
 diagonal_matrix.go | 51 +++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index c465669..64a5d28 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -235,6 +235,27 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 	return nil
 }
 
+// setEntries replaces the entries of a rectangle of the matrix, or none of them
+// when one that is not on the diagonal is not zero.
+func (dm *DiagonalMatrix) setEntries(row, column, nRows, nCols int, at func(i, j int) float64) {
+	for i := 0; i < nRows; i++ {
+		for j := 0; j < nCols; j++ {
+			if row+i != column+j {
+				if err := dm.ensureZero(at(i, j)); err != nil {
+					panic(err)
+				}
+			}
+		}
+	}
+	for i := 0; i < nRows; i++ {
+		for j := 0; j < nCols; j++ {
+			if row+i == column+j {
+				dm.data[row+i] = at(i, j)
+			}
+		}
+	}
+}
+
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
 	if err := checkMatrixIndex(dm, row, column); err != nil {
 		panic(err)
@@ -379,9 +400,7 @@ func (dm *DiagonalMatrix) SetColumnMatrix(column int, matrix RealMatrix) {
 	if (matrix.RowDimension() != nRows) || (matrix.ColumnDimension() != 1) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), nRows, 1))
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, matrix.At(i, 0))
-	}
+	dm.setEntries(0, column, nRows, 1, matrix.At)
 }
 
 func (dm *DiagonalMatrix) ColumnVectorAt(column int) RealVector {
@@ -398,9 +417,7 @@ func (dm *DiagonalMatrix) SetColumnVector(column int, vec RealVector) {
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, vec.At(i))
-	}
+	dm.setEntries(0, column, nRows, 1, func(i, j int) float64 { return vec.At(i) })
 }
 
 func (dm *DiagonalMatrix) Equals(object interface{}) bool {
@@ -513,9 +530,7 @@ func (dm *DiagonalMatrix) SetColumn(column int, array []float64) {
 		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
 
 	}
-	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, array[i])
-	}
+	dm.setEntries(0, column, nRows, 1, func(i, j int) float64 { return array[i] })
 }
 
 func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
@@ -526,9 +541,7 @@ func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, array[i])
-	}
+	dm.setEntries(row, 0, 1, nCols, func(i, j int) float64 { return array[j] })
 }
 
 func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
@@ -539,9 +552,7 @@ func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
 	if (matrix.RowDimension() != 1) || (matrix.ColumnDimension() != nCols) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), 1, nCols))
 	}
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, matrix.At(0, i))
-	}
+	dm.setEntries(row, 0, 1, nCols, matrix.At)
 }
 
 func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
@@ -553,9 +564,7 @@ func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), 1, nCols))
 	}
 
-	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, vec.At(i))
-	}
+	dm.setEntries(row, 0, 1, nCols, func(i, j int) float64 { return vec.At(j) })
 }
 
 func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
@@ -591,11 +600,7 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		panic(err)
 	}
 
-	for i := 0; i < nRows; i++ {
-		for j := 0; j < nCols; j++ {
-			dm.SetEntry(row+i, column+j, subMatrix[i][j])
-		}
-	}
+	dm.setEntries(row, column, nRows, nCols, func(i, j int) float64 { return subMatrix[i][j] })
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-- 
2.43.0


From 5b19998bca93061e3ae0985e6c99c059cd38883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:26 +0000
Subject: [PATCH 32/47] fix: fill in the arguments of error messages

---
 error.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/error.go b/error.go
index 760939f..20540be 100644
--- a/error.go
+++ b/error.go
@@ -41,18 +41,18 @@ const (
 	dimensions_mismatch                   = "dimensions mismatch"
 	no_data                               = "no data"
 	out_of_range_simple                   = "%v out of [%v, %v] range"
-	index                                 = "index (%v)"
-	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	index                                 = "index (%[1]v)"
+	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
 	number_too_large_bound_excluded       = "%v is larger than, or equal to, the maximum (%v)"
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
-	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	row_index                             = "row index (%[1]v)"
+	column_index                          = "column index (%[1]v)"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -63,12 +63,12 @@ const (
 	non_symmetric_matrix                  = "non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v"
 	not_positive_definite_matrix          = "not positive definite matrix"
 	array_element                         = "value %v at index %v"
-	not_positive_exponent                 = "invalid exponent %v (must be positive)"
+	not_positive_exponent                 = "invalid exponent %[1]v (must be positive)"
 	singular_matrix                       = "matrix is singular"
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
@@ -491,7 +491,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
@@ -539,7 +539,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From b4115fd653f75737b7f85eee0eb41ce0deb261df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 33/47] fix: return the convergence error of the Schur
 transform instead of panicking

---
 schur_transformer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 8bc7e0a..54f11de 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -63,7 +63,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
 	ans.matrixP = transformer.P().Data()
 
 	// transform matrix
-	ans.transform()
+	if err := ans.transform(); err != nil {
+		return nil, err
+	}
 	return ans, nil
 }
 
@@ -118,7 +120,7 @@ func (st *SchurTransformer) T() RealMatrix {
 /**
  * Transform original matrix to Schur form.
  */
-func (st *SchurTransformer) transform() {
+func (st *SchurTransformer) transform() error {
 	n := len(st.matrixT)
 
 	// compute matrix norm
@@ -198,7 +200,7 @@ func (st *SchurTransformer) transform() {
 			// stop transformation after too many iterations
 			iteration++
 			if iteration > max_iter_st {
-				panic(maxIterationErrorf(convergence_failed, max_iter_st))
+				return maxIterationErrorf(convergence_failed, max_iter_st)
 			}
 
 			// the initial houseHolder vector for the QR step
@@ -208,6 +210,8 @@ func (st *SchurTransformer) transform() {
 			st.performDoubleQRStep(il, im, iu, shift, hVec)
 		}
 	}
+
+	return nil
 }
 
 /**
-- 
2.43.0


From bc8ee94c1f09de4908c2242e3a48a7d9b27df7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 34/47] fix: a matrix with NaN or one-sided infinite entries is
 not symmetric positive definite

---
 cholesky_decomposition.go | 5 +++--
 utils.go                  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cholesky_decomposition.go b/cholesky_decomposition.go
index 528570e..e53298e 100644
--- a/cholesky_decomposition.go
+++ b/cholesky_decomposition.go
@@ -86,7 +86,8 @@ func NewCholeskyDecomposition(matrix RealMatrix, relativeSymmetryThreshold, abso
 			lIJ := lI[j]
 			lJI := lJ[i]
 			maxDelta := relativeSymmetryThreshold * math.Max(math.Abs(lIJ), math.Abs(lJI))
-			if math.Abs(lIJ-lJI) > maxDelta {
+			// written so that entries that are not finite never pass
+			if delta := math.Abs(lIJ - lJI); !(delta <= maxDelta) || math.IsInf(delta, 0) {
 				return nil, nonSymmetricMatrixSimpleErrorf(i, j, relativeSymmetryThreshold)
 			}
 			lJ[i] = 0
@@ -99,7 +100,7 @@ func NewCholeskyDecomposition(matrix RealMatrix, relativeSymmetryThreshold, abso
 		ltI := ans.lTData[i]
 
 		// check diagonal element
-		if ltI[i] <= absolutePositivityThreshold {
+		if !(ltI[i] > absolutePositivityThreshold) {
 			return nil, nonPositiveDefiniteMatrixErrorf(ltI[i], i, absolutePositivityThreshold)
 		}
 
diff --git a/utils.go b/utils.go
index f196d3e..636901a 100644
--- a/utils.go
+++ b/utils.go
@@ -59,8 +59,9 @@ func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException b
 		for j := i + 1; j < rows; j++ {
 			mij := matrix.At(i, j)
 			mji := matrix.At(j, i)
-			if math.Abs(mij-mji) >
-				math.Max(math.Abs(mij), math.Abs(mji))*relativeTolerance {
+			// written so that entries that are not finite never pass
+			delta := math.Abs(mij - mji)
+			if !(delta <= math.Max(math.Abs(mij), math.Abs(mji))*relativeTolerance) || math.IsInf(delta, 0) {
 				if raiseException {
 					panic(fmt.Sprintf("non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v", i, j, j, i, relativeTolerance))
 				} else {
-- 
2.43.0


From 292a0ea771e385778918ad34a1c22c9035896e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:35 +0000
Subject: [PATCH 35/47] fix: infinite matrix entries are never negligible in
 the eigen and Schur iterations

---
 eigen_decomposition.go | 4 ++--
 schur_transformer.go   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 701ef81..feb1b9f 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -375,10 +375,10 @@ func (ed *EigenDecomposition) findEigenVectors(householderMatrix [][]float64) er
 	// Make null any main and secondary value too small to be significant
 	if maxAbsoluteValue != 0 {
 		for i := 0; i < n; i++ {
-			if math.Abs(ed.realEigenvalues[i]) <= doubleeps*maxAbsoluteValue {
+			if x := math.Abs(ed.realEigenvalues[i]); x <= doubleeps*maxAbsoluteValue && !math.IsInf(x, 0) {
 				ed.realEigenvalues[i] = 0
 			}
-			if math.Abs(e[i]) <= doubleeps*maxAbsoluteValue {
+			if x := math.Abs(e[i]); x <= doubleeps*maxAbsoluteValue && !math.IsInf(x, 0) {
 				e[i] = 0
 			}
 		}
diff --git a/schur_transformer.go b/schur_transformer.go
index 54f11de..2bfa749 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -238,7 +238,8 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx, iteration int,
 		if s == 0.0 || iteration >= lenient_iter_st {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) <= math.Max(doubleeps*s, negligible_st) {
+		x := math.Abs(st.matrixT[l][l-1])
+		if x <= math.Max(doubleeps*s, negligible_st) && !math.IsInf(x, 0) {
 			break
 		}
 		l--
-- 
2.43.0


From 7029ddca2ead4e900305bff4a9bb5cee684710a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 36/47] fix: norm of an eigenvalue neither overflows nor
 underflows

---
 eigen_decomposition.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index feb1b9f..7e20cbd 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -845,7 +845,5 @@ func (s *eigenDecompositionSolver) Inverse() RealMatrix {
 }
 
 func (s *eigenDecompositionSolver) eigenvalueNormAt(i int) float64 {
-	re := s.ed.realEigenvalues[i]
-	im := s.ed.imagEigenvalues[i]
-	return math.Sqrt(re*re + im*im)
+	return math.Hypot(s.ed.realEigenvalues[i], s.ed.imagEigenvalues[i])
 }
-- 
2.43.0


From 11ad8394b4cad3503138971ced270217397186a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:29 +0000
Subject: [PATCH 37/47] fix: SetSubVector does not write a second time after
 copying an array vector's data

---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 83bebb4..e448221 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -463,6 +463,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0


From 84d09029d265fddacb7c03d088aafa1011bb15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:05 +0000
Subject: [PATCH 38/47] fix: a not strictly positive number is reported as
 such, zero excluded

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 20540be..e7c0f66 100644
--- a/error.go
+++ b/error.go
@@ -319,7 +319,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From 577b72d02183f2e6abc5a76be32351a7d992ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:28 +0000
Subject: [PATCH 39/47] fix: decide between a real and a complex pair on the
 final diagonal of the block

---
 schur_transformer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 2bfa749..8c5c0f9 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -148,10 +148,12 @@ func (st *SchurTransformer) transform() error {
 			iteration = 0
 		} else if il == iu-1 {
 			// Two roots found
-			p := (st.matrixT[iu-1][iu-1] - st.matrixT[iu][iu]) / 2.0
-			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
+			// (from the final diagonal, so that whoever reads the block agrees
+			// on whether its eigenvalues are complex)
 			st.matrixT[iu][iu] += shift.exShift
 			st.matrixT[iu-1][iu-1] += shift.exShift
+			p := (st.matrixT[iu-1][iu-1] - st.matrixT[iu][iu]) / 2.0
+			q := p*p + st.matrixT[iu][iu-1]*st.matrixT[iu-1][iu]
 
 			if q >= 0 {
 				z := math.Sqrt(math.Abs(q))
-- 
2.43.0


From 096c0b8ffa16776c73293b821843a16a499ce948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:53 +0000
Subject: [PATCH 40/47] fix: refuse an empty slice where a matrix needs entries

---
 array_2d_row_real_matrix.go | 6 +++++-
 diagonal_matrix.go          | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index d848a0a..2c3d635 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -69,8 +69,12 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
+	if nRows == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+
+	ans := new(Array2DRowRealMatrix)
 	ans.data = make([][]float64, nRows)
 
 	for i := 0; i < nRows; i++ {
diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 64a5d28..1dda2b1 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -43,6 +43,9 @@ func NewDiagonalMatrix(data []float64, copyArray bool) (*DiagonalMatrix, error)
 	if data == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 
 	ans := new(DiagonalMatrix)
 	if copyArray {
-- 
2.43.0


From 437b93daf6ffbc75a4b53fc6ac30fb8934be6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:56 +0000
Subject: [PATCH 41/47] fix: SetColumnVector names the right dimensions when it
 refuses

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2c3d635..cab1df0 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -814,7 +814,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector)
 	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 23ee9fbff38c8a19ae653d598623d2bf5ded8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 42/47] fix: the rectangular Cholesky refusal names the entry
 it refuses

---
 rectangular_cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 5d4d8c5..85c1b3b 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -81,7 +81,7 @@ func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small f
 				if c[index[i]][index[i]] < -small {
 					// there is at least one sufficiently negative diagonal element,
 					// the symmetric positive semidefinite matrix is wrong
-					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], i, small)
+					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], index[i], small)
 				}
 			}
 
-- 
2.43.0


From 7520a26fd6f8e07f44c8eaa47bd4aa64f3fbb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:53 +0000
Subject: [PATCH 43/47] fix: setters read arguments that share the matrix's
 storage as they were

---
 array_2d_row_real_matrix.go | 6 ++++++
 block_real_matrix.go        | 7 +++++++
 utils.go                    | 9 +++++++++
 3 files changed, 22 insertions(+)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index cab1df0..24d0068 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -346,6 +346,7 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 		if err := checkColumnIndex(a2drrm, nCols+column-1); err != nil {
 			panic(err)
 		}
+		subMatrix = copyOfRows(subMatrix)
 
 		for i := 0; i < nRows; i++ {
 			for j := 0; j < nCols; j++ {
@@ -384,6 +385,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumn(column int, array []float64) {
 	if len(array) != nRows {
 		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
 	}
+	array = append([]float64(nil), array...)
 	for i := 0; i < nRows; i++ {
 		a2drrm.data[i][column] = array[i]
 	}
@@ -748,6 +750,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRowMatrix(row int, matrix RealMatrix) {
 	if (matrix.RowDimension() != 1) || (matrix.ColumnDimension() != nCols) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), 1, nCols))
 	}
+	matrix = matrix.Copy()
 	for i := 0; i < nCols; i++ {
 		a2drrm.data[row][i] = matrix.At(0, i)
 	}
@@ -777,6 +780,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnMatrix(column int, matrix RealMatri
 	if (matrix.RowDimension() != nRows) || (matrix.ColumnDimension() != 1) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), nRows, 1))
 	}
+	matrix = matrix.Copy()
 	for i := 0; i < nRows; i++ {
 		a2drrm.data[i][column] = matrix.At(i, 0)
 	}
@@ -797,6 +801,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRowVector(row int, vec RealVector) {
 	if vec.Dimension() != nCols {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), 1, nCols))
 	}
+	vec = vec.Copy()
 	for i := 0; i < nCols; i++ {
 		a2drrm.data[row][i] = vec.At(i)
 	}
@@ -817,6 +822,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector)
 		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
+	vec = vec.Copy()
 	for i := 0; i < nRows; i++ {
 		a2drrm.data[i][column] = vec.At(i)
 	}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index fd6ccc2..a24c8ee 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -572,6 +572,7 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 			panic(dimensionsMismatchSimpleErrorf(refLength, len(subRow)))
 		}
 	}
+	subMatrix = copyOfRows(subMatrix)
 
 	// compute blocks bounds
 	blockStartRow := row / BLOCK_SIZE
@@ -642,6 +643,7 @@ func (brm *BlockRealMatrix) SetRowMatrix(row int, mat RealMatrix) {
 	if (mat.RowDimension() != 1) || (mat.ColumnDimension() != nCols) {
 		panic(matrixDimensionMismatchErrorf(mat.RowDimension(), mat.ColumnDimension(), 1, nCols))
 	}
+	mat = mat.Copy()
 	if m, ok := mat.(*BlockRealMatrix); ok {
 		// perform copy block-wise, to ensure good cache behavior
 		iBlock := row / BLOCK_SIZE
@@ -709,6 +711,7 @@ func (brm *BlockRealMatrix) SetColumnMatrix(column int, mat RealMatrix) {
 	if (mat.RowDimension() != nRows) || (mat.ColumnDimension() != 1) {
 		panic(matrixDimensionMismatchErrorf(mat.RowDimension(), mat.ColumnDimension(), nRows, 1))
 	}
+	mat = mat.Copy()
 	if m, ok := mat.(*BlockRealMatrix); ok {
 		// perform copy block-wise, to ensure good cache behavior
 		jBlock := column / BLOCK_SIZE
@@ -766,6 +769,7 @@ func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
 		if vec.Dimension() != nCols {
 			panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), 1, nCols))
 		}
+		vec = vec.Copy()
 		for i := 0; i < nCols; i++ {
 			brm.SetEntry(row, i, vec.At(i))
 		}
@@ -807,6 +811,7 @@ func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
 		if vec.Dimension() != nRows {
 			panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 		}
+		vec = vec.Copy()
 		for i := 0; i < nRows; i++ {
 			brm.SetEntry(i, column, vec.At(i))
 		}
@@ -840,6 +845,7 @@ func (brm *BlockRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
+	array = append([]float64(nil), array...)
 
 	// perform copy block-wise, to ensure good cache behavior
 	iBlock := row / BLOCK_SIZE
@@ -882,6 +888,7 @@ func (brm *BlockRealMatrix) SetColumn(column int, array []float64) {
 	if len(array) != nRows {
 		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
 	}
+	array = append([]float64(nil), array...)
 
 	// perform copy block-wise, to ensure good cache behavior
 	jBlock := column / BLOCK_SIZE
diff --git a/utils.go b/utils.go
index 636901a..e307cde 100644
--- a/utils.go
+++ b/utils.go
@@ -130,3 +130,12 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 	return isEqual && !math.IsNaN(x) && !math.IsNaN(y)
 
 }
+
+// copyOfRows returns a copy of the rows, so that they can be written into the storage they are taken from.
+func copyOfRows(rows [][]float64) [][]float64 {
+	out := make([][]float64, len(rows))
+	for i := range rows {
+		out[i] = append([]float64(nil), rows[i]...)
+	}
+	return out
+}
-- 
2.43.0


From c6cbbf2a05e072a9ba206d2139f932eee5b1f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 44/47] fix: symmetric eigen decomposition does not converge on
 some matrices with multiple eigenvalues

---
 eigen_decomposition.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 7e20cbd..f7e5423 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -384,8 +384,10 @@ func (ed *EigenDecomposition) findEigenVectors(householderMatrix [][]float64) er
 		}
 	}
 
+	// The limit is on the whole: among many nearly equal eigenvalues one may take long, with the others done at once.
+	its := 0
+	maxIts := max_iter_ed * n
 	for j := 0; j < n; j++ {
-		its := 0
 		var m int
 		for ok := true; ok; ok = m != j {
 			for m = j; m < n-1; m++ {
@@ -396,8 +398,8 @@ func (ed *EigenDecomposition) findEigenVectors(householderMatrix [][]float64) er
 				}
 			}
 			if m != j {
-				if its == max_iter_ed {
-					return maxIterationErrorf(convergence_failed, max_iter_ed)
+				if its == maxIts {
+					return maxIterationErrorf(convergence_failed, maxIts)
 				}
 				its++
 				q := (ed.realEigenvalues[j+1] - ed.realEigenvalues[j]) / (2 * e[j])
-- 
2.43.0


From 0880fe97759b3efe036c4cf61020ebef96a4c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:37 +0000
Subject: [PATCH 45/47] fix: Schur transform overflows to NaN on a small
 sub-diagonal element of a large matrix

---
 schur_transformer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 8c5c0f9..1a9c6ac 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -318,9 +318,14 @@ func (st *SchurTransformer) initQRStep(il, iu int, shift *ShiftInfo, hVec []floa
 		z := st.matrixT[im][im]
 		r := shift.x - z
 		s := shift.y - z
-		hVec[0] = (r*s-shift.w)/st.matrixT[im+1][im] + st.matrixT[im][im+1]
-		hVec[1] = st.matrixT[im+1][im+1] - z - r - s
-		hVec[2] = st.matrixT[im+2][im+1]
+		// only the direction matters: without a division by the sub-diagonal
+		// element, which may be too small for it
+		h := st.matrixT[im+1][im]
+		scale := math.Abs(r) + math.Abs(s) + math.Abs(h) + math.Sqrt(math.Abs(shift.w))
+		h /= scale
+		hVec[0] = r*(s/scale) - shift.w/scale + h*st.matrixT[im][im+1]
+		hVec[1] = h * (st.matrixT[im+1][im+1] - z - r - s)
+		hVec[2] = h * st.matrixT[im+2][im+1]
 
 		if im == il {
 			break
-- 
2.43.0


From 9754e8420c8869511e908f18c80fe35af154a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:32 +0000
Subject: [PATCH 46/47] fix: Schur transform gives up on some matrices with one
 multiple eigenvalue that take over a hundred steps

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 1a9c6ac..41cb5d3 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -21,7 +21,7 @@ import (
 )
 
 var (
-	max_iter_st = 100
+	max_iter_st = 500
 
 	// after this many iterations on an eigenvalue, a sub-diagonal element need
 	// only be small with respect to the whole matrix, not to its neighbours
-- 
2.43.0


From 6b9457b6867121158fef0f4357e5cdaeb1210722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 47/47] fix: vectors copied from or combined with a vector on
 overlapping storage read entries already overwritten

---
 array_real_vector.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index e448221..aa628b0 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -161,11 +161,8 @@ func (arv *ArrayRealVector) CopyFrom(vec RealVector) {
         panic(err)
     }
 
-    dim := vec.Dimension()
-    for i := 0; i < dim; i++ {
-        arv.data[i] = vec.At(i)
-    }
-
+    // (through a copy: vec may share the storage)
+    copy(arv.data, vec.ToArray())
 }
 
 func (arv *ArrayRealVector) Copy() RealVector {
@@ -466,10 +463,8 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
         return
     }
 
-    for i := index; i < index+vec.Dimension(); i++ {
-        arv.data[i] = vec.At(i - index)
-    }
-
+    // (through a copy: vec may share the storage)
+    arv.SetSubVectorWithSlice(index, vec.ToArray())
 }
 
 func (arv *ArrayRealVector) SetSubVectorWithSlice(index int, v []float64) {
@@ -551,8 +546,10 @@ func (arv *ArrayRealVector) Combine(a, b float64, y RealVector) {
         panic(err)
     }
 
+    // (a copy: y may share the storage)
+    yData := y.ToArray()
     for i := 0; i < len(arv.data); i++ {
-        arv.data[i] = a*arv.data[i] + b*y.At(i)
+        arv.data[i] = a*arv.data[i] + b*yData[i]
     }
 }
 
-- 
2.43.0

