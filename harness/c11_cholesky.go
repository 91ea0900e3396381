package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type CholCase struct {
	A Sym
}

// thresholds: the defaults for unscaled matrices, scaled ones otherwise.
func (c CholCase) decompose(m lin.RealMatrix) (*lin.CholeskyDecomposition, error) {
	if c.A.E == 0 {
		return lin.NewDefaultCholeskyDecomposition(m)
	}
	return lin.NewCholeskyDecomposition(m, 1e-15, math.Ldexp(1e-10, c.A.E))
}

func checkChol(c CholCase, o *Obs) error {
	m, d := c.A.build()
	n := len(d)
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	o.NonTrivial(n > 1)
	ch, err := c.decompose(m)
	if err != nil {
		return fmt.Errorf("positive definite matrix refused: %v", err)
	}
	if err := errs(shape("L", ch.L(), n, n), shape("LT", ch.LT(), n, n)); err != nil {
		return err
	}
	l, lt := toDense(ch.L()), toDense(ch.LT())
	if err := errs(sameDense("LT against the transpose of L", lt, l.t()), zeroOutside("L", l, func(i, j int) bool { return j <= i })); err != nil {
		return err
	}
	prod, bound := l.mul(l.t()), l.abs().mul(l.t().abs())
	det, dexp, lo, hi := 1.0, 0, 0, 0
	for i := range l {
		if !(l[i][i] > 0) {
			return fmt.Errorf("L(%d,%d) is %v, want positive", i, i, l[i][i])
		}
		for j := range l {
			tol := 4*float64(n+4)*eps*bound[i][j] + 1e-290
			e := math.Abs(prod[i][j] - d[i][j])
			track("Chol", e/tol)
			if !(e <= tol) {
				return fmt.Errorf("(LL')(%d,%d) is %v, want %v (tolerance %.3g)", i, j, prod[i][j], d[i][j], tol)
			}
		}
		f, e := math.Frexp(l[i][i])
		det *= f * f
		dexp += 2 * e
		lo, hi = lo+mini(0, 2*e), hi+maxi(0, 2*e)
		f, e = math.Frexp(det)
		det, dexp = f, dexp+e
	}
	if !ch.Solver().IsNonSingular() {
		return fmt.Errorf("a positive definite matrix is reported singular")
	}
	if lo > -900 && hi < 900 { // no partial product leaves the range
		w := math.Ldexp(det, dexp)
		return close_("determinant", ch.Determinant(), w, w*float64(n+2)*8*eps)
	}
	return nil
}

type CholRefuse struct {
	How  string // shape, asymmetric, indefinite, symedge, pivotedge
	A    Sym
	R, C int
	I, J int
	K    int  // exponent of the symmetry threshold
	Over bool // edge cases: on which side of the threshold
	Up   bool
	Def  bool // edge cases: with the default thresholds, 1e-15 and 1e-10
}

func genCholRefuse(t *rapid.T) CholRefuse {
	c := CholRefuse{How: oneOf(t, []string{"shape", "asymmetric", "indefinite", "symedge", "pivotedge"}, "how")}
	n := 1 + pick(t, 9, "n")
	switch c.How {
	case "shape":
		c.R, c.C = laDim(t, 60, "r"), laDim(t, 60, "c")
		if c.R == c.C {
			c.C++
		}
		c.A = Sym{Rep: genRep(t, denseReps, "rep")}
		return c
	case "indefinite":
		c.A = genSym(t, n, []string{"ldl"}, nil)
		c.A.K = 1 + pick(t, c.A.N, "pivot")
		return c
	case "asymmetric":
		n = 1 + laDim(t, 59, "n2")
		c.A = genSym(t, n, []string{"gram", "posdiag"}, nil)
	case "symedge":
		n++
		c.A = genSym(t, n, []string{"posdiag"}, nil)
		c.K = 2 + pick(t, 32, "k") // from 2: the difference is exact
		c.Up = pct(t, 50, "negative")
		if c.Def = pct(t, 30, "default"); c.Def {
			c.K = 44 + pick(t, 9, "kdef")
		}
	case "pivotedge":
		c.A = genSym(t, n, []string{"posdiag"}, nil)
		c.K = pick(t, 40, "k")
		if c.Def = pct(t, 30, "default"); c.Def {
			c.K = 25 + pick(t, 16, "kdef")
		}
	}
	c.A.Rep = genRep(t, denseReps, "rep2")
	n = c.A.N
	c.I, c.J = pick(t, n, "i"), pick(t, n, "j")
	if c.I == c.J {
		c.J = (c.I + 1) % n
	}
	c.Over = pct(t, 50, "over")
	return c
}

func checkCholRefuse(c CholRefuse, o *Obs) error {
	o.Label(c.How)
	o.NonTrivial(true)
	build := func(d Dense) lin.RealMatrix { return buildMat(c.A.Rep, d) }
	thr := math.Ldexp(1, -c.K)
	decompose, at, over := lin.NewCholeskyDecomposition, thr, c.Over
	if c.Def {
		o.Label("default thresholds")
		decompose = func(m lin.RealMatrix, _, _ float64) (*lin.CholeskyDecomposition, error) {
			return lin.NewDefaultCholeskyDecomposition(m)
		}
		if c.How == "symedge" {
			at = 1e-15
			over = thr > at
		} else {
			at = 1e-10
			over = thr > at
		}
	}
	switch c.How {
	case "shape":
		m := build(newDense(c.R, c.C))
		return refusedAs(fmt.Sprintf("Cholesky of %dx%d", c.R, c.C), tried(func() error { _, err := lin.NewDefaultCholeskyDecomposition(m); return err }), lin.ESQMAT)
	case "indefinite":
		m, _ := c.A.build()
		p := tried(func() error { _, err := lin.NewCholeskyDecomposition(m, 1e-15, 1e-10); return err })
		return errs(refusedAs("Cholesky of a matrix with a pivot <= 0", tried(func() error { _, err := lin.NewDefaultCholeskyDecomposition(m); return err }), lin.ENSMALL),
			refusedAs("Cholesky of a matrix with a pivot <= 0", p, lin.ENSMALL),
			pointsAt("Cholesky of a matrix with a pivot <= 0", p, c.A.K-1, c.A.K-1, 1e-10))
	case "asymmetric":
		d := c.A.dense()
		d[c.I][c.J] += 1e-3 * (1 + math.Abs(d[c.I][c.J]))
		m := build(d)
		p := tried(func() error { _, err := lin.NewCholeskyDecomposition(m, 1e-15, 1e-10); return err })
		return errs(refusedAs("Cholesky of a non-symmetric matrix", tried(func() error { _, err := lin.NewDefaultCholeskyDecomposition(m); return err }), lin.ESYMM),
			refusedAs("Cholesky of a non-symmetric matrix", p, lin.ESYMM),
			pointsAt("Cholesky of a non-symmetric matrix", p, c.I, c.J, 1e-15))
	case "symedge":
		// a_ij = +-1/4, a_ji = (1 - 2^-k) a_ij: the difference is exactly the threshold 2^-k times the larger
		d := c.A.dense()
		for i := range d {
			d[i][i] = 4 * float64(len(d))
		}
		v := 0.25
		if c.Up {
			v = -v
		}
		d[c.I][c.J] = v
		d[c.J][c.I] = (1 - thr) * v
		if c.Over && !c.Def {
			d[c.J][c.I] = math.Nextafter(d[c.J][c.I], 0)
		}
		m := build(d)
		var ch *lin.CholeskyDecomposition
		p := tried(func() (err error) { ch, err = decompose(m, thr, 1e-10); return })
		if over {
			return errs(refusedAs("asymmetry just over the relative threshold", p, lin.ESYMM),
				pointsAt("asymmetry just over the relative threshold", p, c.I, c.J, at))
		}
		if p != nil {
			return fmt.Errorf("asymmetry equal to the relative threshold refused: %v", p)
		}
		l := toDense(ch.L())
		return near("LL' of a nearly symmetric matrix", l.mul(l.t()), d, thr/4*1.001+1e-12)
	case "pivotedge":
		d := c.A.dense()
		for i := range d {
			d[i][i] += 1
		}
		d[c.I][c.I] = thr
		if c.Over && !c.Def {
			d[c.I][c.I] = math.Nextafter(thr, 2)
		}
		m := build(d)
		p := tried(func() error { _, err := decompose(m, 1e-15, thr); return err })
		if !over {
			return errs(refusedAs("a pivot equal to the positivity threshold", p, lin.ENSMALL),
				pointsAt("a pivot equal to the positivity threshold", p, c.I, c.I, at))
		}
		if p != nil {
			return fmt.Errorf("a pivot above the positivity threshold refused: %v", p)
		}
		return nil
	}
	hbug("how %q", c.How)
	return nil
}

func init() {
	Register("C11", "factors", "a positive definite matrix of order at least 2", 60000, 600000,
		func(t *rapid.T) CholCase {
			c := CholCase{genSym(t, laDim(t, 65, "n"), []string{"gram", "gram", "ldl", "known+", "posdiag", "identity"}, []int{0, 0, 0, 0, 20, -20, 100, -100, 250, -250})}
			far(t, &c.A.E, 900)
			return c
		}, checkChol)
	Register("C11", "refusals", "every case", 60000, 600000, genCholRefuse, checkCholRefuse)
}
