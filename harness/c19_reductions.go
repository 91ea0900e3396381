package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type RedCase struct {
	A     LA
	Order int
}

func redTol(m, n int) float64 { return 10 * float64(maxi(m, n)+6) * eps }

func checkHessenberg(c RedCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	o.NonTrivial(n > 2)
	h := must(lin.NewHessenbergTransformer(a))
	var p, pt, hh Dense
	get := []func() error{
		func() error { p = toDense(h.P()); return shape("P", h.P(), n, n) },
		func() error { pt = toDense(h.PT()); return shape("PT", h.PT(), n, n) },
		func() error { hh = toDense(h.H()); return shape("H", h.H(), n, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%3](); err != nil {
			return err
		}
	}
	tol := redTol(n, n)
	return errs(
		sameDense("PT against the transpose of P", pt, p.t()),
		zeroOutside("H", hh, func(i, j int) bool { return i <= j+1 }),
		orthonormal("P of Hessenberg", p, tol),
		reproduces("PHP'", p.mul(hh).mul(pt), d, tol),
	)
}

type TriRedCase struct {
	A     Sym
	Order int
	Lower bool // garbage in the lower triangle, which is not to be used
}

func checkTridiagonal(c TriRedCase, o *Obs) error {
	d := c.A.dense()
	n := len(d)
	g := d.clone()
	if c.Lower {
		r := splitmix{c.A.Seed + 99}
		for i := range g {
			for j := 0; j < i; j++ {
				g[i][j] = math.Ldexp(float64(r.sym(50)), c.A.E)
			}
		}
		o.Label("lower-triangle-ignored")
	}
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	o.NonTrivial(n > 2)
	t := must(lin.NewTriDiagonalTransformer(buildMat(c.A.Rep, g)))
	var q, qt, tt Dense
	get := []func() error{
		func() error { q = toDense(t.Q()); return shape("Q", t.Q(), n, n) },
		func() error { qt = toDense(t.QT()); return shape("QT", t.QT(), n, n) },
		func() error { tt = toDense(t.T()); return shape("T", t.T(), n, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%3](); err != nil {
			return err
		}
	}
	main, sec := t.MainDiagonalRef(), t.SecondaryDiagonalRef()
	if len(main) != n || len(sec) != n-1 {
		return fmt.Errorf("diagonals of length %d and %d for order %d", len(main), len(sec), n)
	}
	for i := range main {
		if tt[i][i] != main[i] {
			return fmt.Errorf("T(%d,%d) is %v, main diagonal %v", i, i, tt[i][i], main[i])
		}
		if i < n-1 && (tt[i][i+1] != sec[i] || tt[i+1][i] != sec[i]) {
			return fmt.Errorf("T beside (%d,%d) is %v and %v, secondary diagonal %v", i, i, tt[i][i+1], tt[i+1][i], sec[i])
		}
	}
	tol := redTol(n, n)
	return errs(
		sameDense("QT against the transpose of Q", qt, q.t()),
		zeroOutside("T", tt, func(i, j int) bool { return i-j <= 1 && j-i <= 1 }),
		orthonormal("Q of tridiagonal", q, tol),
		reproduces("QTQ'", q.mul(tt).mul(qt), d, tol),
	)
}

func checkBidiagonal(c RedCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	p := mini(m, n)
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(maxi(m, n) > 50, "large")
	o.NonTrivial(p > 1)
	b := must(lin.NewBiDiagonalTransformer(a))
	var u, bb, v Dense
	get := []func() error{
		func() error { u = toDense(b.U()); return shape("U", b.U(), m, m) },
		func() error { bb = toDense(b.B()); return shape("B", b.B(), m, n) },
		func() error { v = toDense(b.V()); return shape("V", b.V(), n, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%3](); err != nil {
			return err
		}
	}
	upper := m >= n
	if b.IsUpperBiDiagonal() != upper {
		return fmt.Errorf("the form of a %dx%d matrix is said to be upper: %v", m, n, b.IsUpperBiDiagonal())
	}
	main, sec := b.MainDiagonalRef(), b.SecondaryDiagonalRef()
	if len(main) != p || len(sec) != p-1 {
		return fmt.Errorf("diagonals of length %d and %d for a %dx%d matrix", len(main), len(sec), m, n)
	}
	for i := range main {
		if bb[i][i] != main[i] {
			return fmt.Errorf("B(%d,%d) is %v, main diagonal %v", i, i, bb[i][i], main[i])
		}
		if i < p-1 {
			x := bb[i][i+1]
			if !upper {
				x = bb[i+1][i]
			}
			if x != sec[i] {
				return fmt.Errorf("B beside (%d,%d) is %v, secondary diagonal %v", i, i, x, sec[i])
			}
		}
	}
	tol := redTol(m, n)
	return errs(
		zeroOutside("B", bb, func(i, j int) bool { return i == j || (upper && j == i+1) || (!upper && i == j+1) }),
		orthonormal("U of bidiagonal", u, tol), orthonormal("V of bidiagonal", v, tol),
		reproduces("UBV'", u.mul(bb).mul(v.t()), d, tol),
	)
}

type RedShape struct {
	Rep  string
	R, C int
	What string
}

func checkRedShape(c RedShape, o *Obs) error {
	o.Label(c.What)
	o.NonTrivial(true)
	m := buildMat(c.Rep, newDense(c.R, c.C))
	return refusedAs(fmt.Sprintf("%s of %dx%d", c.What, c.R, c.C), tried(func() (err error) {
		switch c.What {
		case "Hessenberg":
			_, err = lin.NewHessenbergTransformer(m)
		case "tridiagonal":
			_, err = lin.NewTriDiagonalTransformer(m)
		case "Schur":
			_, err = lin.NewSchurTransformer(m)
		}
		return
	}), lin.ESQMAT)
}

func genNotSquare(t *rapid.T) (int, int) {
	r, c := laDim(t, 60, "r"), laDim(t, 60, "c")
	if r == c {
		c++
	}
	return r, c
}

func init() {
	Register("C19", "hessenberg", "order at least 3", 20000, 200000, func(t *rapid.T) RedCase {
		n := laDim(t, 65, "n")
		c := RedCase{genLA(t, n, n, laGeneral, true), pick(t, 3, "order")}
		far(t, &c.A.E, 450)
		return c
	}, checkHessenberg)
	Register("C19", "tridiagonal", "order at least 3", 20000, 200000, func(t *rapid.T) TriRedCase {
		return TriRedCase{genSym(t, laDim(t, 65, "n"), symAll, []int{0, 0, 0, 0, 20, -20, 100, -100, 250, -250}), pick(t, 3, "order"), pct(t, 30, "lower")}
	}, checkTridiagonal)
	Register("C19", "bidiagonal", "at least two rows and columns", 20000, 200000, func(t *rapid.T) RedCase {
		r, c := genRect(t, 65)
		x := RedCase{genLA(t, r, c, laGeneral, true), pick(t, 3, "order")}
		far(t, &x.A.E, 450)
		return x
	}, checkBidiagonal)
	Register("C19", "refusals", "every case", 3000, 30000, func(t *rapid.T) RedShape {
		r, c := genNotSquare(t)
		return RedShape{genRep(t, denseReps, "rep"), r, c, oneOf(t, []string{"Hessenberg", "tridiagonal"}, "what")}
	}, checkRedShape)
}
