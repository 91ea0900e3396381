package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type LUCase struct {
	A   LA
	Thr F // singularity threshold; NaN: the default constructor
}

func (c LUCase) decompose() (*lin.LUDecomposition, Dense) {
	m, d := c.A.build()
	if math.IsNaN(float64(c.Thr)) {
		return must(lin.NewLUDecomposition(m)), d
	}
	return must(lin.NewLUDecompositionWithThreshold(m, float64(c.Thr))), d
}

func checkLUFactors(c LUCase, o *Obs) error {
	lu, d := c.decompose()
	n := len(d)
	ok := lu.Solver().IsNonSingular()
	o.Label(c.A.Kind)
	o.LabelIf(!ok, "singular")
	o.LabelIf(n > 50, "large")
	if !ok {
		o.NonTrivial(n > 1)
		if lu.L() != nil || lu.U() != nil || lu.P() != nil {
			return fmt.Errorf("factors of a matrix reported singular")
		}
		if det := lu.Determinant(); det != 0 {
			return fmt.Errorf("determinant %v of a matrix reported singular", det)
		}
		return nil
	}
	piv := lu.Pivot()
	identityPerm := true
	for i := range piv {
		if piv[i] != i {
			identityPerm = false
		}
	}
	o.LabelIf(!identityPerm, "rows-exchanged")
	o.NonTrivial(n > 1 && (!identityPerm || d.t().sub(d).maxAbs() != 0))
	if !isPerm(piv, n) {
		return fmt.Errorf("pivot %v is not a permutation", piv)
	}
	if err := errs(shape("L", lu.L(), n, n), shape("U", lu.U(), n, n), shape("P", lu.P(), n, n)); err != nil {
		return err
	}
	l, u, p := toDense(lu.L()), toDense(lu.U()), toDense(lu.P())
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			w := 0.0
			if piv[i] == j {
				w = 1
			}
			if p[i][j] != w {
				return fmt.Errorf("P(%d,%d) is %v with pivot %v", i, j, p[i][j], piv)
			}
			switch {
			case j > i && l[i][j] != 0:
				return fmt.Errorf("L(%d,%d) is %v", i, j, l[i][j])
			case j == i && l[i][j] != 1:
				return fmt.Errorf("L(%d,%d) is %v", i, j, l[i][j])
			case j < i && !(math.Abs(l[i][j]) <= 1+4*eps):
				return fmt.Errorf("L(%d,%d) is %v, over 1 in magnitude", i, j, l[i][j])
			case j < i && u[i][j] != 0:
				return fmt.Errorf("U(%d,%d) is %v", i, j, u[i][j])
			}
		}
	}
	prod, bound := l.mul(u), l.abs().mul(u.abs())
	floor := math.SmallestNonzeroFloat64 * (1 + u.maxAbs())
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			tol := 4 * float64(n+4) * (eps*bound[i][j] + floor)
			e := math.Abs(prod[i][j] - d[piv[i]][j])
			track("LU", e/tol)
			if !(e <= tol) {
				return fmt.Errorf("(LU)(%d,%d) is %v, want %v (tolerance %.3g)", i, j, prod[i][j], d[piv[i]][j], tol)
			}
		}
	}
	// determinant: signed product of the pivots
	mant, exp := 1.0, 0
	for i := 0; i < n; i++ {
		f, e := math.Frexp(u[i][i])
		mant *= f
		exp += e
		f, e = math.Frexp(mant)
		mant, exp = f, exp+e
	}
	mant *= float64(parity(piv))
	if exp > -900 && exp < 900 {
		want := math.Ldexp(mant, exp)
		// partial products, in whatever order, may leave the range when the entries are very uneven
		lo, hi := 0, 0
		for i := 0; i < n; i++ {
			_, e := math.Frexp(u[i][i])
			lo, hi = lo+mini(0, e), hi+maxi(0, e)
		}
		if lo > -900 && hi < 900 {
			o.Label("determinant")
			return close_("determinant", lu.Determinant(), want, math.Abs(want)*float64(n+2)*4*eps)
		}
	}
	return nil
}

func isPerm(p []int, n int) bool {
	if len(p) != n {
		return false
	}
	seen := make([]bool, n)
	for _, x := range p {
		if x < 0 || x >= n || seen[x] {
			return false
		}
		seen[x] = true
	}
	return true
}

func parity(p []int) int {
	seen := make([]bool, len(p))
	s := 1
	for i := range p {
		k := 0
		for j := i; !seen[j]; j = p[j] {
			seen[j] = true
			k++
		}
		if k > 0 && k%2 == 0 {
			s = -s
		}
	}
	return s
}

func genThr(t *rapid.T, e int) F {
	k := pick(t, 10, "thr")
	switch {
	case k < 5:
		return F(math.NaN())
	case k < 7:
		return 1e-300 // only an exact zero pivot is singular
	case k < 9:
		return F(math.Ldexp(1e-13, e))
	}
	return F(math.Ldexp(float64(1+pick(t, 8, "thrv"))/4, e))
}

// Integer matrices whose determinant is computed exactly.
type DetCase struct {
	A LA
}

func checkLUDet(c DetCase, o *Obs) error {
	m, d := c.A.build()
	n := len(d)
	want := bigToFloat(intDet(d))
	lu := must(lin.NewLUDecomposition(m))
	o.NonTrivial(n > 1)
	o.LabelIf(want == 0, "singular")
	got := lu.Determinant()
	if err := close_("determinant", got, want, 1e-12*float64(n*n)*hadamard(d)*math.Ldexp(1, n)/8+0); err != nil {
		return err
	}
	// Triangular factors with unit diagonals built in: det is exactly +-1 or the
	// product of a small integer diagonal; nearest integer must be right.
	if math.Abs(want) < 1e6 && hadamard(d) < 1e7 {
		o.Label("rounds-to-integer")
		if math.Round(got) != want {
			return fmt.Errorf("determinant %v of an integer matrix, exactly %v", got, want)
		}
	}
	return nil
}

func init() {
	Register("C10", "factors", "a matrix of order at least 2, rows exchanged or not symmetric (or reported singular)", 16000, 160000,
		func(t *rapid.T) LUCase {
			n := laDim(t, 65, "n")
			a := genLA(t, n, n, laGeneral, true)
			far(t, &a.E, 900)
			thr := genThr(t, a.E)
			if pct(t, 6, "speck") { // entries whose reciprocals overflow
				a.E = -1000 - pick(t, 60, "speckE")
				thr = math.SmallestNonzeroFloat64
			}
			return LUCase{a, thr}
		}, checkLUFactors)
	Register("C10", "integer-determinant", "an integer matrix of order at least 2", 16000, 160000,
		func(t *rapid.T) DetCase {
			n := 1 + pick(t, 8, "n")
			return DetCase{genLA(t, n, n, []string{"int", "tiny", "tiny", "perm", "rank", "diag", "zerocol", "zerorow", "dupcol", "duprow", "identity", "ones"}, false)}
		}, checkLUDet)
}
