package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type SymEigenCase struct {
	A     Sym
	Order int
}

func eigTol(n int) float64 { return 20 * float64(n+4) * eps }

// checkSymEigen: everything promised of the decomposition of the symmetric d.
func checkSymEigen(ed *lin.EigenDecomposition, d Dense, order int) error {
	n := len(d)
	var v, vt, dd Dense
	var re, im []float64
	get := []func() error{
		func() error { v = toDense(ed.V()); return shape("V", ed.V(), n, n) },
		func() error { vt = toDense(ed.VT()); return shape("VT", ed.VT(), n, n) },
		func() error { dd = toDense(ed.D()); return shape("D", ed.D(), n, n) },
		func() error { re, im = ed.RealEigenvalues(), ed.ImagEigenvalues(); return nil },
	}
	for k := range get {
		if err := get[(k+order)%4](); err != nil {
			return err
		}
	}
	if len(re) != n || len(im) != n {
		return fmt.Errorf("%d real and %d imaginary parts for order %d", len(re), len(im), n)
	}
	if ed.HasComplexEigenvalues() {
		return fmt.Errorf("a symmetric matrix is said to have complex eigenvalues")
	}
	f := d.fro()
	tol := eigTol(n)
	var evs []lin.RealVector // all of them, before any is looked at
	for i := range re {
		evs = append(evs, ed.EigenvectorAt(i))
	}
	for i := range re {
		if im[i] != 0 || ed.ImagEigenvalue(i) != 0 {
			return fmt.Errorf("eigenvalue %d has imaginary part %v", i, im[i])
		}
		if !(re[i] == dd[i][i]) || ed.RealEigenvalueAt(i) != re[i] {
			return fmt.Errorf("eigenvalue %d is %v in the list, %v in D, %v by index", i, re[i], dd[i][i], ed.RealEigenvalueAt(i))
		}
		if i > 0 && re[i] > re[i-1] {
			return fmt.Errorf("eigenvalues %v are not descending", re)
		}
		if err := matchVec(fmt.Sprintf("eigenvector %d against column of V", i), evs[i], col(v, i)); err != nil {
			return err
		}
	}
	if err := errs(
		zeroOutside("D", dd, func(i, j int) bool { return i == j }),
		sameDense("VT against the transpose of V", vt, v.t()),
		orthonormal("V", v, tol),
		reproduces("VDV'", v.mul(dd).mul(vt), d, tol),
		near("AV against VD", d.mul(v), v.mul(dd), tol*f+1e-290),
	); err != nil {
		return err
	}
	if w, ok := product(re); ok {
		return close_("determinant", ed.Determinant(), w, math.Abs(w)*float64(n+2)*4*eps)
	}
	return nil
}

// product of factors, unless it or a partial product leaves the comfortable range.
func product(x []float64) (float64, bool) {
	p, lo, hi := 1.0, 0.0, 0.0
	for _, f := range x {
		p *= f
		if f != 0 {
			l := math.Log2(math.Abs(f))
			lo, hi = lo+math.Min(0, l), hi+math.Max(0, l)
		}
	}
	return p, lo > -950 && hi < 950
}

func checkEigenFull(c SymEigenCase, o *Obs) error {
	a, d := c.A.build()
	o.Label(c.A.Kind)
	o.LabelIf(len(d) > 50, "large")
	o.NonTrivial(len(d) > 1 && !isDiagonal(d))
	ed, err := lin.NewEigenDecomposition(a)
	if err != nil {
		return fmt.Errorf("symmetric matrix refused: %v", err)
	}
	if err := checkSymEigen(ed, d, c.Order); err != nil {
		return err
	}
	if c.A.Kind == "known" || c.A.Kind == "repeated" || c.A.Kind == "known+" {
		o.Label("known-spectrum")
		l := c.A.knownEigenvalues()
		re := ed.RealEigenvalues()
		for i := range l {
			if err := close_(fmt.Sprintf("eigenvalue %d", i), re[i], math.Ldexp(l[i], c.A.E), eigTol(len(d))*d.fro()); err != nil {
				return err
			}
		}
	}
	return nil
}

func isDiagonal(d Dense) bool {
	for i := range d {
		for j := range d[i] {
			if i != j && d[i][j] != 0 {
				return false
			}
		}
	}
	return true
}

type TriCase struct {
	Main, Sec Vec
	Order     int
}

func checkEigenTri(c TriCase, o *Obs) error {
	m, s := c.Main.vals(), c.Sec.vals()
	n := len(m)
	d := newDense(n, n)
	zero := false
	for i := range d {
		d[i][i] = m[i]
		if i+1 < n {
			d[i][i+1], d[i+1][i] = s[i], s[i]
			zero = zero || s[i] == 0
		}
	}
	o.NonTrivial(n > 1 && !isDiagonal(d))
	o.LabelIf(zero, "decoupled")
	o.LabelIf(n > 50, "large")
	m0, s0 := append([]float64{}, m...), append([]float64{}, s...)
	ed, err := lin.NewEigenDecompositionFromTridiagonal(m, s)
	if err != nil {
		return fmt.Errorf("tridiagonal matrix refused: %v", err)
	}
	if err := errs(matchSlice("main diagonal after the decomposition", m, m0), matchSlice("secondary diagonal after the decomposition", s, s0)); err != nil {
		return err
	}
	for i := range m {
		m[i] = 77
	}
	return checkSymEigen(ed, d, c.Order)
}

type RootEigCase struct {
	A Sym
}

func checkSqrt(c RootEigCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	ed := must(lin.NewEigenDecomposition(a))
	o.Label(c.A.Kind)
	switch c.A.Kind {
	case "negdir", "zerodiag":
		o.NonTrivial(true)
		return refusedAs("square root of a not positive definite matrix", attempt(func() { ed.SquareRoot() }), lin.EUNSUP)
	}
	o.NonTrivial(n > 1)
	r := ed.SquareRoot()
	if err := shape("square root", r, n, n); err != nil {
		return err
	}
	s := toDense(r)
	f := d.fro()
	return errs(
		near("square root against its transpose", s, s.t(), eigTol(n)*math.Sqrt(f)),
		near("square of the square root", s.mul(s), d, 4*eigTol(n)*f),
	)
}

func init() {
	scales := []int{0, 0, 0, 0, 20, -20, 100, -100, 250, -250}
	Register("C17", "full", "a symmetric matrix of order at least 2 that is not diagonal", 30000, 300000,
		func(t *rapid.T) SymEigenCase {
			c := SymEigenCase{genSym(t, laDim(t, 65, "n"), symAll, scales), pick(t, 4, "order")}
			far(t, &c.A.E, 450)
			return c
		}, checkEigenFull)
	Register("C17", "multiple", "every case (orders 60 to 180, few distinct eigenvalues)", 200, 1500,
		func(t *rapid.T) SymEigenCase {
			return SymEigenCase{genSym(t, 60+pick(t, 121, "n"), []string{"few", "few", "few", "repeated"}, []int{0}), pick(t, 4, "order")}
		}, checkEigenFull)
	Register("C17", "tridiagonal", "order at least 2 and not diagonal", 30000, 300000,
		func(t *rapid.T) TriCase {
			n := laDim(t, 65, "n")
			d := func(l string) string { return oneOf(t, []string{dInt, dTiny, dFloat, dWide}, l) }
			return TriCase{genVec(t, "array", n, d("md"), "m"), genVec(t, "array", n-1, d("sd"), "s"), pick(t, 4, "order")}
		}, checkEigenTri)
	Register("C17", "square-root", "order at least 2, or a matrix that is not positive definite", 20000, 200000,
		func(t *rapid.T) RootEigCase {
			return RootEigCase{genSym(t, laDim(t, 60, "n"), []string{"gram", "gram", "known+", "posdiag", "identity", "ldl", "negdir", "zerodiag"}, []int{0, 0, 20, -20})}
		}, checkSqrt)
}
