package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// pivotedQR is a Householder factorisation with column exchanges: the
// reference for row and column spaces. perm[j] is the column moved to j.
func pivotedQR(d Dense) (q, r Dense, perm []int) {
	m, n := d.rows(), d.cols()
	_, e := math.Frexp(d.maxAbs())
	r, q = d.scale(math.Ldexp(1, -e)), identity(m)
	for j := 0; j < n; j++ {
		perm = append(perm, j)
	}
	for k := 0; k < mini(m, n); k++ {
		best, at := -1.0, k
		for j := k; j < n; j++ {
			s := 0.0
			for i := k; i < m; i++ {
				s += r[i][j] * r[i][j]
			}
			if s > best {
				best, at = s, j
			}
		}
		for i := range r {
			r[i][k], r[i][at] = r[i][at], r[i][k]
		}
		perm[k], perm[at] = perm[at], perm[k]
		if best <= 0 {
			break
		}
		v := make([]float64, m)
		for i := k; i < m; i++ {
			v[i] = r[i][k]
		}
		v[k] += math.Copysign(math.Sqrt(best), v[k])
		vv := 0.0
		for _, x := range v {
			vv += x * x
		}
		if vv == 0 {
			break
		}
		for j := k; j < n; j++ {
			s := 0.0
			for i := k; i < m; i++ {
				s += v[i] * r[i][j]
			}
			s *= 2 / vv
			for i := k; i < m; i++ {
				r[i][j] -= s * v[i]
			}
		}
		for i := range q {
			s := 0.0
			for j := k; j < m; j++ {
				s += q[i][j] * v[j]
			}
			s *= 2 / vv
			for j := k; j < m; j++ {
				q[i][j] -= s * v[j]
			}
		}
	}
	return q, r.scale(math.Ldexp(1, e)), perm
}

type LSCase struct {
	A          LA   `json:"a"`
	B          Mat  `json:"b"`
	BE         int  `json:"be,omitempty"`
	BG         int  `json:"bg,omitempty"`
	Consistent bool `json:"consistent,omitempty"` // b = A times the first n rows of B
	Vec        string
}

func (c LSCase) rhs(d Dense) Dense {
	b := c.B.dense()
	if c.BE != 0 {
		b = b.scale(math.Ldexp(1, c.BE))
	}
	if c.Consistent {
		y := newDense(d.cols(), b.cols())
		for i := range y {
			copy(y[i], b[i%b.rows()])
		}
		b = d.mul(y)
	}
	return gradeColumns(b, c.BG)
}

// spaces: rank, effective condition and an orthonormal basis of the row space.
func spaces(d Dense, rank int) (kappa float64, basis Dense) {
	q, r, _ := pivotedQR(d.t()) // d' perm = q r: the leading columns of q span the row space
	basis = newDense(d.cols(), rank)
	for i := range basis {
		copy(basis[i], q[i][:rank])
	}
	if rank == 0 {
		return 1, basis
	}
	lead := newDense(rank, rank)
	for i := range lead {
		copy(lead[i], r[i][:rank])
	}
	_, kappa = invRef(lead)
	// R11 leaves R12 out of the norm: bounded through the column pivoting
	return kappa * math.Sqrt(float64(d.rows()-rank+1)), basis
}

func checkLS(c LSCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(maxi(m, n) > 52, "large")
	if d.maxAbs() == 0 {
		o.Label("zero")
	}
	p := mini(m, n)
	rank := p
	switch c.A.Kind {
	case "frank":
		rank = c.A.K
	case "rank", "zero", "ones", "dupcol", "duprow", "zerocol", "zerorow":
		rank = intRank(c.A.unscaled())
	}
	kappa, rowSpace := spaces(d, rank)
	if !(kappa < 1e9) {
		o.Label("too ill conditioned")
		return nil
	}
	b := c.rhs(d)
	o.NonTrivial(m != n && rank > 0 && b.maxAbs() > 0)
	o.LabelIf(rank < p, "rank-deficient")
	o.LabelIf(b.cols() > 52, "many right-hand sides")
	o.LabelIf(c.Consistent, "consistent")
	size := float64(maxi(m, n)) + 4
	f := d.fro()
	bm := buildMat(c.B.Rep, b)
	type solved struct {
		name     string
		s        lin.DecompositionSolver
		spectral float64
	}
	var solvers []solved
	if rank == p {
		thr := f / kappa / size / 16
		qr := must(lin.NewQRDecompositionWithThreshold(a, thr))
		rr := must(lin.NewRRQRDecompositionWithThreshold(a, thr))
		if m < n {
			// the leading square part may be ill conditioned: without column
			// exchanges it is no property of the matrix
			solvers = append(solvers, solved{"RRQR", rr.Solver(), 1})
			if s := qr.Solver(); s.IsNonSingular() {
				solvers = append(solvers, solved{"QR", s, 1})
			}
		} else {
			solvers = append(solvers, solved{"QR", qr.Solver(), 1}, solved{"RRQR", rr.Solver(), 1})
		}
	}
	solvers = append(solvers, solved{"SVD", must(lin.NewSingularValueDecomposition(a)).Solver(), kappa})
	j := int(c.B.Seed+uint64(c.B.R)) % b.cols()
	var first []float64
	for _, s := range solvers {
		if rank == p && m >= n && s.name != "SVD" && !s.s.IsNonSingular() {
			return fmt.Errorf("%s: matrix of full column rank and condition %.3g reported singular", s.name, kappa)
		}
		x := newDense(n, b.cols())
		xm := s.s.SolveMatrix(bm)
		if err := shape(s.name+" solution", xm, n, b.cols()); err != nil {
			return err
		}
		x = toDense(xm)
		xv := s.s.SolveVector(buildVec(c.Vec, col(b, j)))
		if xv.Dimension() != n {
			return fmt.Errorf("%s solution has %d entries, want %d", s.name, xv.Dimension(), n)
		}
		v := toSlice(xv)
		for k := -1; k < b.cols(); k++ {
			xk, bk, form := v, []float64(nil), "vector form"
			if k < 0 {
				bk = col(b, j)
			} else {
				xk, bk, form = col(x, k), col(b, k), fmt.Sprintf("matrix form, column %d", k)
			}
			res := make([]float64, m)
			for i := range res {
				res[i] = bk[i]
				for l := range xk {
					res[i] -= d[i][l] * xk[l]
				}
			}
			unit := 10 * size * eps * (f*norm2Ref(xk) + s.spectral*norm2Ref(bk))
			if m < n && s.name != "SVD" { // solves the equations
				track(s.name+" wide", norm2Ref(res)/(unit+1e-290))
				if !(norm2Ref(res) <= unit+1e-290) {
					return fmt.Errorf("%s %s: residual %.3g of a system of full row rank (tolerance %.3g)", s.name, form, norm2Ref(res), unit)
				}
				continue
			}
			for l := 0; l < n; l++ {
				g := 0.0
				for i := range res {
					g += d[i][l] * res[i]
				}
				tol := f*unit + 1e-290
				track(s.name+" normal equations", math.Abs(g)/tol)
				if !(math.Abs(g) <= tol) {
					return fmt.Errorf("%s %s: the residual is not orthogonal to column %d: %.3g (tolerance %.3g)", s.name, form, l, g, tol)
				}
			}
			if s.name == "SVD" { // no part outside the row space
				w := append([]float64(nil), xk...)
				for h := 0; h < rank; h++ {
					u := col(rowSpace, h)
					dot := 0.0
					for i := range u {
						dot += u[i] * xk[i]
					}
					for i := range w {
						w[i] -= dot * u[i]
					}
				}
				tol := 10*size*eps*kappa*(norm2Ref(xk)+kappa*norm2Ref(bk)/maxf(f, 1e-290)) + 1e-290
				track("SVD minimum norm", norm2Ref(w)/tol)
				if !(norm2Ref(w) <= tol) {
					return fmt.Errorf("SVD %s: the solution is not the shortest: part of norm %.3g outside the row space (tolerance %.3g)", form, norm2Ref(w), tol)
				}
			}
		}
		if m >= n && rank == p {
			if first == nil {
				first = v
			}
			res := norm2Ref(col(b, j))
			tol := 20*size*eps*kappa*(norm2Ref(v)+(1+kappa)*res/maxf(f, 1e-290)) + 1e-290
			diff := 0.0
			for i := range v {
				diff = math.Hypot(diff, v[i]-first[i])
				diff = math.Hypot(diff, v[i]-x[i][j])
			}
			track(s.name+" LS agreement", diff/tol)
			if !(diff <= tol) {
				return fmt.Errorf("%s: solution %.3g away from QR or from its matrix form (tolerance %.3g)", s.name, diff, tol)
			}
		}
	}
	return nil
}

func maxf(a, b float64) float64 { return math.Max(a, b) }

// One-sided inverses of rectangular matrices of full rank.
type PinvCase struct {
	A LA `json:"a"`
}

func checkOneSided(c PinvCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	p := mini(m, n)
	kappa, _ := spaces(d, p)
	if !(kappa < 1e6) {
		o.Label("too ill conditioned")
		return nil
	}
	o.NonTrivial(m != n && p > 1)
	size := float64(maxi(m, n)) + 4
	thr := d.fro() / kappa / size / 16
	solvers := []solverOf{
		{name: "RRQR", s: must(lin.NewRRQRDecompositionWithThreshold(a, thr)).Solver()},
		{name: "SVD", s: must(lin.NewSingularValueDecomposition(a)).Solver()},
	}
	if m >= n {
		solvers = append(solvers, solverOf{name: "QR", s: must(lin.NewQRDecompositionWithThreshold(a, thr)).Solver()})
	}
	var first Dense
	for _, s := range solvers {
		im := s.s.Inverse()
		if err := shape(s.name+" inverse", im, n, m); err != nil {
			return err
		}
		x := toDense(im)
		tol := 50 * size * eps * kappa * kappa * float64(p)
		var e float64
		if m >= n {
			e = x.mul(d).sub(identity(n)).maxAbs()
			// among the left inverses the least squares one has d*x symmetric
			y := d.mul(x)
			e = math.Max(e, y.sub(y.t()).maxAbs())
		} else {
			e = d.mul(x).sub(identity(m)).maxAbs()
		}
		track(s.name+" one-sided inverse", e/tol)
		if !(e <= tol) {
			return fmt.Errorf("%s: the inverse of a %dx%d matrix of full rank is off by %.3g (tolerance %.3g)", s.name, m, n, e, tol)
		}
		if m >= n {
			if first == nil {
				first = x
			}
			if err := near(s.name+" inverse against the one of "+solvers[0].name, x, first, 50*size*eps*kappa*kappa*first.fro()); err != nil {
				return err
			}
		}
	}
	return nil
}

// Ill conditioned systems with a solution: short of the precision, every
// singular value that counts towards the rank takes part in the solution.
type IllCase struct {
	A   LA  `json:"a"`
	Y   Mat `json:"y"`
	Vec string
}

func checkIll(c IllCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	kappa := math.Pow(10, float64(c.A.K))
	y := c.Y.dense()
	b := d.mul(y)
	size := float64(maxi(m, n)) + 4
	o.Label(fmt.Sprintf("condition 1e%d", c.A.K))
	svd := must(lin.NewSingularValueDecomposition(a))
	if svd.Rank() != n {
		o.Label("rank short")
		return nil
	}
	o.NonTrivial(n > 1 && c.A.K >= 10)
	thr := d.fro() / kappa / size / 16
	for _, s := range []solverOf{
		{name: "SVD", s: svd.Solver()},
		{name: "QR", s: must(lin.NewQRDecompositionWithThreshold(a, thr)).Solver()},
		{name: "RRQR", s: must(lin.NewRRQRDecompositionWithThreshold(a, thr)).Solver()},
	} {
		if !s.s.IsNonSingular() && s.name != "SVD" {
			o.Label("refused by " + s.name)
			continue
		}
		x := toDense(s.s.SolveMatrix(buildMat(c.Y.Rep, b)))
		v := toSlice(s.s.SolveVector(buildVec(c.Vec, col(b, 0))))
		for k := -1; k < b.cols(); k++ {
			xk, yk := v, col(y, maxi(k, 0))
			if k >= 0 {
				xk = col(x, k)
			}
			e := 0.0
			for i := range xk {
				e = math.Hypot(e, xk[i]-yk[i])
			}
			tol := 1.5*size*eps*kappa*norm2Ref(yk) + 1e-290
			track(s.name+" ill conditioned", e/tol)
			if !(e <= tol) {
				return fmt.Errorf("%s: system of full column rank and condition %.3g: the solution is %.3g away from the known one, of norm %.3g (tolerance %.3g)", s.name, kappa, e, norm2Ref(yk), tol)
			}
		}
	}
	return nil
}

func init() {
	Register("C22", "ill-conditioned", "at least two columns, condition 1e10 or more", 6000, 60000,
		func(t *rapid.T) IllCase {
			n := 1 + pick(t, 8, "n")
			m := n + pick(t, 6, "m")
			c := IllCase{Vec: oneOf(t, vecReps, "vec")}
			c.A = genLA(t, m, n, []string{"spectrum"}, true)
			c.A.K = 8 + pick(t, 5, "decades")
			c.Y = genMat(t, oneOf(t, []string{"array", "block", "custom"}, "yrep"), n, 1+pick(t, 3, "rhs"), oneOf(t, []string{dInt, dTiny, dFloat}, "ydist"), "y")
			return c
		}, checkIll)
	kinds := []string{"explicit", "int", "tiny", "float", "float", "wide", "identity", "diag", "upper", "lower", "perm", "anti", "toeplitz", "orth", "spectrum", "spectrum", "clustered", "gradedcols"}
	Register("C22", "least-squares", "not square, rank above zero, right-hand side not zero", 16000, 240000,
		func(t *rapid.T) LSCase {
			r, cc := genRect(t, 65)
			if pct(t, 2, "huge") {
				r = 105
			}
			if pct(t, 55, "tall") && r < cc {
				r, cc = cc, r
			}
			c := LSCase{Vec: oneOf(t, vecReps, "vec"), Consistent: pct(t, 30, "consistent"), BE: oneOf(t, []int{0, 0, 0, 0, 20, -20, 90, -90}, "bscale"), BG: oneOf(t, grades, "grade")}
			c.A = genLA(t, r, cc, append([]string{"frank", "frank", "frank", "rank", "dupcol", "duprow", "zerocol", "zerorow", "ones", "zero"}, kinds...), true)
			k := 1 + pick(t, 4, "rhs")
			if pct(t, 12, "manyrhs") {
				k = oneOf(t, []int{51, 52, 53, 104, 105}, "rhsE")
			}
			c.B = genMat(t, genRep(t, append([]string{"default"}, denseReps...), "brep"), r, k, oneOf(t, []string{dInt, dTiny, dFloat, dWide}, "bdist"), "b")
			return c
		}, checkLS)
	Register("C22", "one-sided-inverse", "not square, at least two rows and columns", 16000, 240000,
		func(t *rapid.T) PinvCase {
			r, c := genRect(t, 56)
			return PinvCase{genLA(t, r, c, kinds, true)}
		}, checkOneSided)
}
