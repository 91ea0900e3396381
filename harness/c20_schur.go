package main

import (
	"fmt"
	"math"
	"math/cmplx"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

func schurTol(n int) float64 { return 20 * float64(n+6) * eps }

// blockEigenvalues of a quasi-triangular matrix, a subdiagonal entry at most tiny
// counting as zero. It fails when two significant ones follow each other.
func blockEigenvalues(t Dense, tiny float64) ([]complex128, error) {
	var l []complex128
	for i := 0; i < len(t); i++ {
		if i+1 == len(t) || math.Abs(t[i+1][i]) <= tiny {
			l = append(l, complex(t[i][i], 0))
			continue
		}
		if i+2 < len(t) && math.Abs(t[i+2][i+1]) > tiny {
			return nil, fmt.Errorf("subdiagonal entries %v and %v of rows %d and %d are both nonzero", t[i+1][i], t[i+2][i+1], i+1, i+2)
		}
		p := complex((t[i][i]-t[i+1][i+1])/2, 0)
		z := cmplx.Sqrt(p*p + complex(t[i][i+1]*t[i+1][i], 0))
		m := complex((t[i][i]+t[i+1][i+1])/2, 0)
		l = append(l, m+z, m-z)
		i++
	}
	return l, nil
}

// spectraAgree matches two lists of eigenvalues one to one within tol.
func spectraAgree(got, want []complex128, tol float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d eigenvalues, want %d", len(got), len(want))
	}
	left := append([]complex128{}, got...)
	worst := 0.0
	for _, w := range want {
		b, bd := -1, math.Inf(1)
		for i, g := range left {
			if x := cmplx.Abs(g - w); x < bd {
				b, bd = i, x
			}
		}
		if b < 0 || !(bd <= tol) {
			return fmt.Errorf("no eigenvalue within %.3g of %v among %v", tol, w, got)
		}
		worst = math.Max(worst, bd)
		left = append(left[:b], left[b+1:]...)
	}
	track("spectrum", worst/tol)
	return nil
}

func scaled(l []complex128, e int) []complex128 {
	o := make([]complex128, len(l))
	for i := range l {
		o[i] = l[i] * complex(math.Ldexp(1, e), 0)
	}
	return o
}

// exactlyReal: the block at i has a real eigenvalue, and no rounding can hide it.
func exactlyReal(t Dense, i int) bool {
	x := t[i][i] - t[i+1][i+1]
	if !exactSum(t[i][i], -t[i+1][i+1]) {
		return false
	}
	x /= 2
	a, b := x*x, t[i][i+1]*t[i+1][i]
	for _, y := range []float64{x, t[i][i+1], t[i+1][i]} {
		if y != 0 && (math.Abs(y) < 1e-130 || math.Abs(y) > 1e130) {
			return false
		}
	}
	return math.FMA(x, x, -a) == 0 && math.FMA(t[i][i+1], t[i+1][i], -b) == 0 && exactSum(a, b) && a+b >= 0
}

func exactSum(a, b float64) bool {
	s := a + b
	v := s - a
	return (a-(s-v))+(b-v) == 0
}

type SchurCase struct {
	A     LA
	Order int
}

func checkSchur(c SchurCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	o.NonTrivial(n > 2)
	h := must(lin.NewSchurTransformer(a))
	var p, pt, t Dense
	get := []func() error{
		func() error { p = toDense(h.P()); return shape("P", h.P(), n, n) },
		func() error { pt = toDense(h.PT()); return shape("PT", h.PT(), n, n) },
		func() error { t = toDense(h.T()); return shape("T", h.T(), n, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%3](); err != nil {
			return err
		}
	}
	tol := schurTol(n)
	f := d.fro()
	if err := errs(
		sameDense("PT against the transpose of P", pt, p.t()),
		zeroOutside("T", t, func(i, j int) bool { return i <= j+1 }),
		orthonormal("P of Schur", p, tol),
		reproduces("PTP'", p.mul(t).mul(pt), d, tol),
	); err != nil {
		return err
	}
	l, err := blockEigenvalues(t, tol*f)
	if err != nil {
		return err
	}
	pairs := 0
	for i, x := range l {
		if imag(x) != 0 {
			pairs++
		}
		// the only 2x2 blocks left are those of complex pairs
		if i+1 < n && t[i+1][i] != 0 {
			q := (t[i][i]-t[i+1][i+1])/2*((t[i][i]-t[i+1][i+1])/2) + t[i][i+1]*t[i+1][i]
			if q > tol*f*f || exactlyReal(t, i) {
				return fmt.Errorf("the block at %d has real eigenvalues but was not split: %v %v / %v %v", i, t[i][i], t[i][i+1], t[i+1][i], t[i+1][i+1])
			}
		}
	}
	o.LabelIf(pairs > 0, "complex")
	switch c.A.Kind {
	case "normal":
		return spectraAgree(l, scaled(c.A.spectrum(), c.A.E), tol*f)
	}
	// trace of the square: the sum of the squares of the eigenvalues
	tr, ts := 0.0, complex(0, 0)
	for i := range d {
		for j := range d {
			tr += d[i][j] * d[j][i]
		}
		ts += l[i] * l[i]
	}
	if err := close_("sum of the squared eigenvalues", real(ts), tr, float64(n)*tol*f*f+1e-290); err != nil {
		return err
	}
	return close_("imaginary part of the sum of the squared eigenvalues", imag(ts), 0, float64(n)*tol*f*f+1e-290)
}

func init() {
	Register("C20", "factors", "order at least 3", 40000, 400000, func(t *rapid.T) SchurCase {
		n := laDim(t, 65, "n")
		x := SchurCase{genLA(t, n, n, laSquare, true), pick(t, 3, "order")}
		far(t, &x.A.E, 450)
		return x
	}, checkSchur)
	Register("C20", "multiple", "order at least 3", 20000, 150000, func(t *rapid.T) SchurCase {
		n := 4 + pick(t, 10, "n")
		if pct(t, 20, "larger") {
			n = 14 + pick(t, 30, "n2")
		}
		x := SchurCase{genLA(t, n, n, []string{"chains", "chains", "chains", "defect", "normal"}, false), pick(t, 3, "order")}
		return x
	}, checkSchur)
	Register("C20", "refusals", "every case", 2000, 20000, func(t *rapid.T) RedShape {
		r, c := genNotSquare(t)
		return RedShape{genRep(t, denseReps, "rep"), r, c, "Schur"}
	}, checkRedShape)
}
