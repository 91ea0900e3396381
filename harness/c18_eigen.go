package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

func checkEigen(c SchurCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	o.Labelf("scale 2^%d", c.A.E)
	ed, err := lin.NewEigenDecomposition(a)
	if err != nil {
		return fmt.Errorf("refused: %v", err)
	}
	var v, vt, dd Dense
	var re, im []float64
	get := []func() error{
		func() error { v = toDense(ed.V()); return shape("V", ed.V(), n, n) },
		func() error { vt = toDense(ed.VT()); return shape("VT", ed.VT(), n, n) },
		func() error { dd = toDense(ed.D()); return shape("D", ed.D(), n, n) },
		func() error { re, im = ed.RealEigenvalues(), ed.ImagEigenvalues(); return nil },
	}
	for k := range get {
		if err := get[(k+c.Order)%4](); err != nil {
			return err
		}
	}
	if len(re) != n || len(im) != n {
		return fmt.Errorf("%d real and %d imaginary parts for order %d", len(re), len(im), n)
	}
	f := d.fro()
	tol := schurTol(n)
	asym := d.sub(d.t()).fro()
	if asym <= 100*float64(n*n)*eps*f {
		tol += 20 * float64(n*n) * eps // taken for symmetric
	}
	o.NonTrivial(n > 1 && asym > 0)
	complexes := false
	var l []complex128
	var evs []lin.RealVector // all of them, before any is looked at
	for i := 0; i < n; i++ {
		evs = append(evs, ed.EigenvectorAt(i))
	}
	for i := 0; i < n; i++ {
		if ed.RealEigenvalueAt(i) != re[i] || ed.ImagEigenvalue(i) != im[i] {
			return fmt.Errorf("eigenvalue %d is %v + %vi in the lists, %v + %vi by index", i, re[i], im[i], ed.RealEigenvalueAt(i), ed.ImagEigenvalue(i))
		}
		l = append(l, complex(re[i], im[i]))
		if err := matchVec(fmt.Sprintf("eigenvector %d against column of V", i), evs[i], col(v, i)); err != nil {
			return err
		}
		if im[i] == 0 {
			continue
		}
		complexes = true
		if im[i] > 0 {
			if i+1 == n || re[i+1] != re[i] || im[i+1] != -im[i] {
				return fmt.Errorf("eigenvalue %d, %v + %vi, is not followed by its conjugate: %v %v", i, re[i], im[i], re, im)
			}
		} else if i == 0 || im[i-1] != -im[i] {
			return fmt.Errorf("eigenvalue %d, %v + %vi, does not follow its conjugate: %v %v", i, re[i], im[i], re, im)
		}
	}
	o.LabelIf(complexes, "complex")
	if ed.HasComplexEigenvalues() != complexes {
		return fmt.Errorf("complex eigenvalues: %v, said: %v (%v)", complexes, !complexes, im)
	}
	if complexes {
		if err := refusedAs("solver of a matrix with complex eigenvalues", attempt(func() { ed.Solver() }), lin.EUNSUP); err != nil {
			return err
		}
	}
	if complexes || asym > 1e-6*f {
		if err := refusedAs("square root of a non-symmetric matrix", attempt(func() { ed.SquareRoot() }), lin.EUNSUP); err != nil {
			return err
		}
	}
	want := newDense(n, n)
	for i := range want {
		want[i][i] = re[i]
		if im[i] > 0 {
			want[i][i+1] = im[i]
		} else if im[i] < 0 {
			want[i][i-1] = im[i]
		}
	}
	if err := errs(
		sameDense("VT against the transpose of V", vt, v.t()),
		sameDense("D against the eigenvalues", dd, want),
	); err != nil {
		return err
	}
	av, vd := d.mul(v), v.mul(dd)
	for j := 0; j < n; j++ {
		size := hypots(col(v, j))
		if im[j] > 0 {
			size = math.Hypot(size, hypots(col(v, j+1)))
		} else if im[j] < 0 {
			size = math.Hypot(size, hypots(col(v, j-1)))
		}
		if !(size > 1e-290 && size < 1e290) {
			return fmt.Errorf("eigenvector %d has norm %v", j, size)
		}
		for i := 0; i < n; i++ {
			e := math.Abs(av[i][j] - vd[i][j])
			track("eigen residual", e/(tol*f*size))
			if !(e <= tol*f*size+1e-290) {
				return fmt.Errorf("AV and VD differ by %.3g at (%d,%d), |A| = %.3g, |v| = %.3g (tolerance %.3g)", e, i, j, f, size, tol*f*size)
			}
		}
	}
	tr, ts := 0.0, complex(0, 0)
	sum, tsum := 0.0, 0.0
	prod := complex(1, 0)
	lo, hi, lg := 0.0, 0.0, 0.0 // no partial product leaves the range, in whatever order
	for i := range d {
		for j := range d {
			tr += d[i][j] * d[j][i]
		}
		sum += d[i][i]
		tsum += re[i]
		ts += l[i] * l[i]
	}
	for i := range l { // pairs adjacent, so the product of what precedes is real
		prod *= l[i]
		if l[i] != 0 {
			lg = math.Log2(math.Hypot(re[i], im[i]))
			lo, hi = lo+math.Min(0, lg), hi+math.Max(0, lg)
		}
	}
	nf := float64(n)
	if err := errs(
		close_("sum of the eigenvalues", tsum, sum, nf*tol*f+1e-290),
		close_("sum of the squared eigenvalues", real(ts), tr, nf*tol*f*f+1e-290),
	); err != nil {
		return err
	}
	if lo > -950 && hi < 950 {
		p := real(prod)
		if err := close_("determinant against the product of the eigenvalues", ed.Determinant(), p, math.Abs(p)*(nf+2)*8*eps); err != nil {
			return err
		}
	}
	if c.A.Kind == "normal" {
		return spectraAgree(l, scaled(c.A.spectrum(), c.A.E), tol*f)
	}
	if c.A.Kind == "intsim" {
		_, cond := unimodularSim(&splitmix{c.A.Seed}, c.A.quasiDiag())
		if t := cond * tol * f; t < math.Ldexp(0.25, c.A.E) {
			o.Label("known spectrum of a non-normal matrix")
			return spectraAgree(l, scaled(c.A.spectrum(), c.A.E), t)
		}
	}
	return nil
}

var eigenScales = []int{0, 0, 0, 0, 0, 0, 10, -10, 35, -35, 100, -100, 250, -250, 450, -450}

func init() {
	Register("C18", "general", "a square matrix of order at least 2 that is not symmetric", 40000, 400000, func(t *rapid.T) SchurCase {
		n := laDim(t, 65, "n")
		a := genLA(t, n, n, laEigen, false)
		a.E = oneOf(t, eigenScales, "scale")
		return SchurCase{a, pick(t, 4, "order")}
	}, checkEigen)
}

// hypots is the norm of a vector whose squares may overflow.
func hypots(x []float64) float64 {
	h := 0.0
	for _, v := range x {
		h = math.Hypot(h, v)
	}
	return h
}
