package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// invRef inverts by Gauss-Jordan elimination with row pivoting; the second
// result is the condition number in the Frobenius norm, infinite when a pivot
// vanishes.
func invRef(d Dense) (Dense, float64) {
	n := len(d)
	_, e := math.Frexp(d.maxAbs())
	a, x := d.scale(math.Ldexp(1, -e)), identity(n)
	norm := a.fro()
	for k := 0; k < n; k++ {
		p := k
		for i := k + 1; i < n; i++ {
			if math.Abs(a[i][k]) > math.Abs(a[p][k]) {
				p = i
			}
		}
		if !(math.Abs(a[p][k]) > 0) || math.IsInf(a[p][k], 0) {
			return nil, math.Inf(1)
		}
		a[k], a[p], x[k], x[p] = a[p], a[k], x[p], x[k]
		f := 1 / a[k][k]
		for j := 0; j < n; j++ {
			a[k][j] *= f
			x[k][j] *= f
		}
		for i := 0; i < n; i++ {
			if g := a[i][k]; i != k && g != 0 {
				for j := 0; j < n; j++ {
					a[i][j] -= g * a[k][j]
					x[i][j] -= g * x[k][j]
				}
			}
		}
	}
	k := norm * x.fro()
	if !(k >= 1) {
		return nil, math.Inf(1)
	}
	return x.scale(math.Ldexp(1, -e)), k
}

// rowNorm is the largest absolute row sum.
func (d Dense) rowNorm() float64 {
	m := 0.0
	for i := range d {
		s := 0.0
		for _, x := range d[i] {
			s += math.Abs(x)
		}
		m = math.Max(m, s)
	}
	return m
}

// solverOf is a solver with what bounds its backward error: |b - Ax| is within
// n*eps*(growth*|x| + spectral*|b|).
type solverOf struct {
	name     string
	s        lin.DecompositionSolver
	growth   float64
	spectral float64
}

// generalSolvers of a nonsingular matrix of condition kappa.
func generalSolvers(a lin.RealMatrix, d Dense, kappa float64) []solverOf {
	scale, n := d.maxAbs(), float64(len(d))
	thr := scale / kappa / n / 16 // no pivot can be this small
	lu := must(lin.NewLUDecompositionWithThreshold(a, thr))
	l := []solverOf{{"LU", lu.Solver(), 0, 0}}
	if lu.L() != nil {
		l[0].growth = toDense(lu.L()).abs().mul(toDense(lu.U()).abs()).rowNorm()
	}
	f := d.fro() * math.Sqrt(n)
	l = append(l,
		solverOf{"QR", must(lin.NewQRDecompositionWithThreshold(a, thr)).Solver(), f, 1},
		solverOf{"RRQR", must(lin.NewRRQRDecompositionWithThreshold(a, thr)).Solver(), f, 1})
	if kappa < 1e12 {
		l = append(l, solverOf{"SVD", must(lin.NewSingularValueDecomposition(a)).Solver(), f, kappa})
	}
	return l
}

// residual of one solution: the largest entry of b - Ax over its tolerance.
func (s solverOf) residual(what string, d Dense, x, b []float64, tiny float64) error {
	n := float64(len(d))
	tol := 10*(n+4)*eps*(s.growth*norm2Ref(x)+s.spectral*norm2Ref(b)) + tiny
	for i := range d {
		r, mag := b[i], 0.0
		for j := range x {
			r -= d[i][j] * x[j]
			mag += math.Abs(d[i][j] * x[j])
		}
		t := tol + 2*(n+2)*eps*mag
		track(s.name+" residual", math.Abs(r)/t)
		if !(math.Abs(r) <= t) {
			return fmt.Errorf("%s %s: residual %.3g in row %d (tolerance %.3g)", s.name, what, r, i, t)
		}
	}
	return nil
}

type SolveCase struct {
	A   LA   `json:"a"`
	S   *Sym `json:"s,omitempty"` // instead of A: symmetric, with the solvers for that
	B   Mat  `json:"b"`
	BE  int  `json:"be,omitempty"` // power of two the right-hand side is scaled by
	BG  int  `json:"bg,omitempty"` // columns of different magnitudes, by powers of 2^BG; odd: some columns zero
	Vec string
	Inv bool `json:"inv,omitempty"`
}

// gradeColumns scales the columns apart.
func gradeColumns(b Dense, g int) Dense {
	for i := range b {
		for k := range b[i] {
			b[i][k] = math.Ldexp(b[i][k], g*(k*7%5-2))
			if g&1 != 0 && k%3 == 1 {
				b[i][k] = 0
			}
		}
	}
	return b
}

var grades = []int{0, 0, 0, 1, 4, 31, 60}

func (c SolveCase) matrix() (lin.RealMatrix, Dense) {
	if c.S != nil {
		return c.S.build()
	}
	return c.A.build()
}

func (c SolveCase) rhs() Dense {
	b := c.B.dense()
	if c.BE != 0 {
		b = b.scale(math.Ldexp(1, c.BE))
	}
	return gradeColumns(b, c.BG)
}

func checkSolve(c SolveCase, o *Obs) error {
	a, d := c.matrix()
	n := len(d)
	kind := c.A.Kind
	if c.S != nil {
		kind = "sym " + c.S.Kind
	}
	o.Label(kind)
	o.LabelIf(n > 52, "large")
	if d.maxAbs() == 0 {
		o.Label("zero")
		return nil
	}
	inv, kappa := invRef(d)
	if !(kappa < 1e13) {
		o.Label("too ill conditioned")
		return nil
	}
	b := c.rhs()
	o.NonTrivial(n > 1 && b.maxAbs() > 0)
	o.LabelIf(b.cols() > 52, "many right-hand sides")
	o.LabelIf(kappa < 1e3, "well conditioned")
	solvers := generalSolvers(a, d, kappa)
	if c.S != nil {
		if kappa < 1e11 {
			ed := must(lin.NewEigenDecomposition(a))
			solvers = append(solvers, solverOf{"eigen", ed.Solver(), d.fro() * math.Sqrt(float64(n)), kappa})
		}
		switch c.S.Kind {
		case "known+", "gram", "identity", "posdiag", "ldl":
			ch := must(lin.NewCholeskyDecomposition(a, 1e-15, d.maxAbs()/kappa/float64(n)/16))
			solvers = append(solvers, solverOf{"Cholesky", ch.Solver(), d.fro() * float64(n), 0})
		}
	}
	tiny := 1e-290 * (1 + d.maxAbs())
	bm := buildMat(c.B.Rep, b)
	var first []float64 // of the first solver: the others agree with it
	j := int(c.B.Seed+uint64(c.B.R)) % b.cols()
	bj := col(b, j)
	for _, s := range solvers {
		if !s.s.IsNonSingular() {
			return fmt.Errorf("%s: matrix of condition %.3g reported singular", s.name, kappa)
		}
		xm := s.s.SolveMatrix(bm)
		if err := shape(s.name+" solution", xm, n, b.cols()); err != nil {
			return err
		}
		x := toDense(xm)
		for k := 0; k < b.cols(); k++ {
			if err := s.residual(fmt.Sprintf("matrix form, column %d", k), d, col(x, k), col(b, k), tiny); err != nil {
				return err
			}
		}
		xv := s.s.SolveVector(buildVec(c.Vec, bj))
		if xv.Dimension() != n {
			return fmt.Errorf("%s solution has %d entries, want %d", s.name, xv.Dimension(), n)
		}
		v := toSlice(xv)
		if err := s.residual("vector form", d, v, bj, tiny); err != nil {
			return err
		}
		// forward: solutions agree to conditioning
		if first == nil {
			first = v
		}
		fwd := 0.0
		for i := range v {
			fwd = math.Hypot(fwd, v[i]-first[i])
			fwd = math.Hypot(fwd, v[i]-x[i][j])
		}
		tol := 100*(float64(n)+4)*eps*inv.fro()*((s.growth+solvers[0].growth)*norm2Ref(v)+s.spectral*norm2Ref(bj)) + tiny*inv.fro()
		track(s.name+" agreement", fwd/tol)
		if !(fwd <= tol) {
			return fmt.Errorf("%s: the solution is %.3g away from the matrix form or the one of LU (tolerance %.3g, condition %.3g)", s.name, fwd, tol, kappa)
		}
		if c.Inv {
			im := s.s.Inverse()
			if err := shape(s.name+" inverse", im, n, n); err != nil {
				return err
			}
			y := toDense(im)
			for k := 0; k < n; k++ {
				if err := s.residual(fmt.Sprintf("inverse, column %d", k), d, col(y, k), col(identity(n), k), 1e-290); err != nil {
					return err
				}
			}
			if kappa < 1e7 {
				o.Label("two-sided inverse")
				t := 100 * (float64(n) + 4) * eps * kappa * (s.growth/d.fro() + 1 + s.spectral) * float64(n)
				e := y.mul(d).sub(identity(n)).maxAbs()
				track(s.name+" left inverse", e/t)
				if !(e <= t) {
					return fmt.Errorf("%s: inverse times matrix is %.3g off the identity (tolerance %.3g)", s.name, e, t)
				}
			}
		}
	}
	return nil
}

func genRHS(t *rapid.T, rows int) (Mat, int, string) {
	k := 1 + pick(t, 4, "rhs")
	if pct(t, 15, "manyrhs") {
		k = oneOf(t, []int{51, 52, 53, 60, 104, 105}, "rhsE")
	}
	rep := genRep(t, append([]string{"default", "diag"}, denseReps...), "brep")
	if rep == "diag" {
		k = rows
	}
	b := genMat(t, rep, rows, k, oneOf(t, []string{dInt, dTiny, dFloat, dWide}, "bdist"), "b")
	return b, oneOf(t, []int{0, 0, 0, 0, 20, -20, 90, -90}, "bscale"), oneOf(t, vecReps, "vec")
}

var laSolve = []string{"explicit", "explicit", "int", "int", "tiny", "float", "float", "wide", "identity", "diag", "upper", "lower", "perm", "anti",
	"hilbert", "toeplitz", "orth", "spectrum", "spectrum", "clustered", "gradedrows", "gradedcols", "cyclic", "companion", "skew", "hess", "blocks", "nearsym", "normal", "fleck"}
var symSolve = []string{"explicit", "explicit", "int", "tiny", "float", "wide", "identity", "diag", "tridiag", "known", "repeated", "gram", "known+", "known+", "posdiag", "ldl", "anti", "arrow", "hilbert", "blockdiag"}

func solveDim(t *rapid.T) int {
	if pct(t, 2, "huge") {
		return oneOf(t, []int{103, 104, 105, 110}, "n")
	}
	return laDim(t, 65, "n")
}

func init() {
	Register("C21", "general", "order at least 2, condition under 1e13, right-hand side not zero", 10000, 200000,
		func(t *rapid.T) SolveCase {
			n := solveDim(t)
			c := SolveCase{A: genLA(t, n, n, laSolve, true), Inv: pct(t, 50, "inverse")}
			c.B, c.BE, c.Vec = genRHS(t, n)
			c.BG = oneOf(t, grades, "grade")
			return c
		}, checkSolve)
	Register("C21", "symmetric", "order at least 2, condition under 1e13, right-hand side not zero", 10000, 200000,
		func(t *rapid.T) SolveCase {
			s := genSym(t, solveDim(t), symSolve, []int{0, 0, 0, 0, 20, -20, 90, -90, 250, -250})
			if s.Kind == "ldl" || s.Kind == "gram" {
				s.K = 0
			}
			c := SolveCase{S: &s, Inv: pct(t, 50, "inverse")}
			c.B, c.BE, c.Vec = genRHS(t, s.N)
			c.BG = oneOf(t, grades, "grade")
			return c
		}, checkSolve)
}
