package main

import (
	"fmt"
	"math"
	"math/cmplx"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// AgreeCase: quantities of a matrix against the same quantities of what
// orthogonal transformations, rearrangements and other decompositions make of it.
type AgreeCase struct {
	A    LA     `json:"a"`
	S    *Sym   `json:"s,omitempty"`
	Way  string `json:"way"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	X    F      `json:"x"`
	Rep  string `json:"rep"` // of what is compared with A
	Seed uint64 `json:"seed"`
}

func singularValues(m lin.RealMatrix) []float64 {
	return must(lin.NewSingularValueDecomposition(m)).SingularValues()
}

// shuffled: rows and columns of d rearranged; the same way round for both where
// together is set.
func shuffled(r *splitmix, d Dense, together bool) Dense {
	perm := func(n int) []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		for i := n - 1; i > 0; i-- {
			j := r.intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
		return p
	}
	p := perm(d.rows())
	q := p
	if !together {
		q = perm(d.cols())
	}
	e := newDense(d.rows(), d.cols())
	for i := range e {
		for j := range e[i] {
			e[i][j] = d[p[i]][q[j]]
		}
	}
	return e
}

func without2(d Dense, i, j int) Dense {
	var e Dense
	for r := range d {
		if r == i {
			continue
		}
		var row []float64
		for c := range d[r] {
			if c != j {
				row = append(row, d[r][c])
			}
		}
		e = append(e, row)
	}
	return e
}

func sameValues(what string, got, want []float64, tol float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d of them, want %d", what, len(got), len(want))
	}
	for i := range want {
		track(what, math.Abs(got[i]-want[i])/tol)
		if err := close_(fmt.Sprintf("%s: number %d", what, i), got[i], want[i], tol); err != nil {
			return err
		}
	}
	return nil
}

// interlaced: each of inner lies between its neighbours in outer, as those of a
// matrix with one row or column less do; k values may be missing at either end.
func interlaced(what string, outer, inner []float64, tol float64) error {
	for i, x := range inner {
		if i < len(outer) && !(x <= outer[i]+tol) {
			return fmt.Errorf("%s: %v is greater than %v", what, x, outer[i])
		}
		if k := i + len(outer) - len(inner); len(inner) < len(outer) && k < len(outer) && !(x >= outer[k]-tol) {
			return fmt.Errorf("%s: %v is less than %v", what, x, outer[k])
		}
		if k := i + 1; len(inner) == len(outer) && k < len(outer) && !(x >= outer[k]-tol) {
			return fmt.Errorf("%s: %v is less than %v", what, x, outer[k])
		}
	}
	return nil
}

var singularWays = []string{"transpose", "rearranged", "signs", "QR", "RRQR", "QT A", "bidiagonal", "Hessenberg", "Schur", "norms", "less a row", "less a column", "zero border", "perturbed", "determinant", "rank"}

func checkSingularAgree(c AgreeCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	p := mini(m, n)
	r := &splitmix{c.Seed}
	sv := must(lin.NewSingularValueDecomposition(a))
	s := sv.SingularValues()
	f := d.fro()
	tol := svdTol(m, n)*f + 1e-290
	o.NonTrivial(p > 1 && f > 0)
	square := m == n
	way := c.Way
	if !square && (way == "Hessenberg" || way == "Schur" || way == "determinant") {
		way = "QR"
	}
	o.Label(way)
	of := func(what string, e Dense) error {
		return sameValues("singular values "+what, singularValues(buildMat(c.Rep, e)), s, tol)
	}
	padded := func(what string, e lin.RealMatrix) error { // more rows or columns of zeros do not matter
		g := singularValues(e)
		for _, x := range g[mini(p, len(g)):] {
			if !(x <= tol) {
				return fmt.Errorf("singular values %s: %v beyond the first %d", what, x, p)
			}
		}
		return sameValues("singular values "+what, g[:mini(p, len(g))], s, 2*tol)
	}
	switch way {
	case "transpose":
		return sameValues("singular values of the transpose", singularValues(a.Transpose()), s, tol)
	case "rearranged":
		return of("of the rearranged matrix", shuffled(r, d, false))
	case "signs":
		e := d.clone()
		for i := range e {
			if r.intn(2) == 0 {
				for j := range e[i] {
					e[i][j] = -e[i][j]
				}
			}
		}
		return of("after changes of sign", e)
	case "QR":
		return padded("of R", must(lin.NewQRDecomposition(a)).R())
	case "RRQR":
		return padded("of R with column exchanges", must(lin.NewRRQRDecomposition(a)).R())
	case "QT A":
		return padded("of Q'A", must(lin.NewQRDecomposition(a)).QT().Multiply(a))
	case "bidiagonal":
		return padded("of the bidiagonal form", must(lin.NewBiDiagonalTransformer(a)).B())
	case "Hessenberg":
		return sameValues("singular values of the Hessenberg form", singularValues(must(lin.NewHessenbergTransformer(a)).H()), s, 2*tol)
	case "Schur":
		return sameValues("singular values of the Schur form", singularValues(must(lin.NewSchurTransformer(a)).T()), s, 8*tol)
	case "norms":
		sum := 0.0
		for i := len(s) - 1; i >= 0; i-- {
			sum = math.Hypot(sum, s[i])
		}
		row, column := 0.0, 0.0
		for i := range d {
			x := 0.0
			for j := range d[i] {
				x += math.Abs(d[i][j])
			}
			row = math.Max(row, x)
		}
		for j := range d[0] {
			x := 0.0
			for i := range d {
				x += math.Abs(d[i][j])
			}
			column = math.Max(column, x)
		}
		if err := errs(close_("Norm and the first singular value", sv.Norm(), s[0], 0), close_("root of the sum of squares", sum, f, tol)); err != nil {
			return err
		}
		if f > 1e-140 && f < 1e140 {
			if err := close_("MatFrobeniusNorm", lin.MatFrobeniusNorm(a), sum, tol); err != nil {
				return err
			}
		}
		if !(s[0] <= math.Sqrt(row)*math.Sqrt(column)+tol) || !(s[0] >= d.maxAbs()-tol) || !(s[0] <= f+tol) {
			return fmt.Errorf("norm %v, entries up to %v, sums up to %v (rows) and %v (columns)", s[0], d.maxAbs(), row, column)
		}
	case "less a row", "less a column":
		i, j := c.I%m, -1
		if way == "less a column" {
			i, j = -1, c.J%n
		}
		e := without2(d, i, j)
		if len(e) == 0 || len(e[0]) == 0 {
			return nil
		}
		return interlaced("singular values "+way, s, singularValues(buildMat(c.Rep, e)), 2*tol)
	case "zero border":
		e := newDense(m+1, n+1)
		i, j := c.I%(m+1), c.J%(n+1)
		for x := range d {
			for y := range d[x] {
				u, v := x, y
				if u >= i {
					u++
				}
				if v >= j {
					v++
				}
				e[u][v] = d[x][y]
			}
		}
		return padded("with a row and a column of zeros", buildMat(c.Rep, e))
	case "perturbed":
		h := 0.0
		e := d.clone()
		i, j := c.I%m, c.J%n
		for k := 0; k < 2; k++ { // two entries of different rows and columns: the norm is the larger change
			if i < m && j < n {
				e[i][j] += f * math.Ldexp(r.norm(), -r.intn(40))
				h = math.Max(h, math.Abs(e[i][j]-d[i][j]))
			}
			i, j = i+1, j+1
		}
		g := singularValues(buildMat(c.Rep, e))
		for i := range s {
			if !(math.Abs(g[i]-s[i]) <= h+3*tol) {
				return fmt.Errorf("singular value %d goes from %v to %v where the matrix changes by %v", i, s[i], g[i], h)
			}
		}
	case "determinant":
		if !inRange(d) || f == 0 {
			return nil
		}
		det := math.Abs(must(lin.NewLUDecompositionWithThreshold(a, 1e-290)).Determinant())
		prod := 1.0
		for _, x := range s {
			prod *= x
		}
		// each singular value is off by tol at most
		high, low := 1.0, 1.0
		for _, x := range s {
			high *= x + tol
			low *= math.Max(0, x-tol)
		}
		t := detTol(d, det)
		o.LabelIf(low > 0, "determinant decided")
		if !(det <= high+t) || !(det >= low-t) {
			return fmt.Errorf("determinant %v, product of the singular values %v (from %v to %v)", det, prod, low, high)
		}
	case "rank":
		// where no singular value comes near the limit, the ranks are the same
		k := 0
		for k < p && s[k] > 1e-4*s[0] {
			k++
		}
		if f == 0 || p > 15 || (k < p && !(s[k] < 1e-13*s[0])) {
			return nil
		}
		o.Label("rank decided")
		x := must(lin.NewRRQRDecomposition(a)).Rank(1e-6 * f)
		if x != k {
			return fmt.Errorf("rank %d from the decomposition with column exchanges, %d singular values %v", x, k, s)
		}
	default:
		hbug("way %q", way)
	}
	return nil
}

var symWays = []string{"rearranged", "shifted", "negated", "tridiagonal", "Hessenberg", "Schur", "singular values", "less one", "Rayleigh", "Cholesky", "rectangular Cholesky", "square", "inertia", "doubled"}

func checkSymAgree(c AgreeCase, o *Obs) error {
	a, d := c.S.build()
	n := len(d)
	r := &splitmix{c.Seed}
	eigen := func(m lin.RealMatrix) []float64 {
		l := append([]float64{}, must(lin.NewEigenDecomposition(m)).RealEigenvalues()...)
		sortDesc(l)
		return l
	}
	l := eigen(a)
	f := d.fro()
	tol := eigTol(n)*f + 1e-290
	o.NonTrivial(n > 1 && f > 0)
	o.Label(c.Way)
	switch c.Way {
	case "rearranged":
		return sameValues("eigenvalues of the rearranged matrix", eigen(buildMat(c.Rep, shuffled(r, d, true))), l, tol)
	case "shifted":
		x := float64(c.X) * f
		e := d.clone()
		for i := range e {
			e[i][i] += x
		}
		w := append([]float64{}, l...)
		for i := range w {
			w[i] += x
		}
		return sameValues("eigenvalues of the shifted matrix", eigen(buildMat(c.Rep, e)), w, tol+2*eigTol(n)*math.Abs(x))
	case "negated":
		w := make([]float64, n)
		for i := range w {
			w[i] = -l[n-1-i]
		}
		return sameValues("eigenvalues of the negated matrix", eigen(a.ScalarMultiply(-1)), w, tol)
	case "tridiagonal":
		return sameValues("eigenvalues of the tridiagonal form", eigen(must(lin.NewTriDiagonalTransformer(a)).T()), l, 2*tol)
	case "Hessenberg", "Schur":
		var h Dense
		if c.Way == "Schur" {
			h = toDense(must(lin.NewSchurTransformer(a)).T())
		} else {
			h = toDense(must(lin.NewHessenbergTransformer(a)).H())
		}
		// symmetric up to rounding
		if err := near("the "+c.Way+" form of a symmetric matrix, against its transpose", h, h.t(), 8*tol); err != nil {
			return err
		}
		e := newDense(n, n)
		for i := range e {
			for j := range e[i] {
				e[i][j] = (h[i][j] + h[j][i]) / 2
			}
		}
		return sameValues("eigenvalues of the "+c.Way+" form", eigen(buildMat(c.Rep, e)), l, 8*tol)
	case "singular values":
		w := make([]float64, n)
		for i := range w {
			w[i] = math.Abs(l[i])
		}
		sortDesc(w)
		return sameValues("singular values against the moduli of the eigenvalues", singularValues(a), w, 2*tol)
	case "less one":
		if n == 1 {
			return nil
		}
		return interlaced("eigenvalues less one row and column", l, eigen(buildMat(c.Rep, without2(d, c.I%n, c.I%n))), 2*tol)
	case "Rayleigh":
		for k := 0; k < 5; k++ {
			x, q, s := make([]float64, n), 0.0, 0.0
			for i := range x {
				x[i] = r.norm()
				if k == 4 {
					x[i] = float64(1 - 2*r.intn(2))
				}
				s += x[i] * x[i]
			}
			y := a.Operate(x)
			for i := range x {
				q += x[i] * y[i]
			}
			if !(q <= s*(l[0]+tol)) || !(q >= s*(l[n-1]-tol)) {
				return fmt.Errorf("x'Ax/x'x = %v outside the eigenvalues, %v to %v", q/s, l[n-1], l[0])
			}
		}
	case "Cholesky":
		if f == 0 || math.Abs(l[n-1]) < 1e-9*f || f > 1e150 || f < 1e-150 {
			return nil
		}
		_, err := lin.NewCholeskyDecomposition(a, 1e-13, f*1e-60)
		o.LabelIf(err == nil, "definite")
		o.LabelIf(err != nil, "indefinite")
		if (err == nil) != (l[n-1] > 0) {
			return fmt.Errorf("least eigenvalue %v, Cholesky says %v", l[n-1], err)
		}
	case "rectangular Cholesky":
		// rank where the spectrum leaves no doubt
		k := 0
		for k < n && l[k] > 1e-2*f {
			k++
		}
		if f == 0 || n > 12 || k == 0 || (k < n && l[k] > 1e-14*float64(n)*f) || l[n-1] < -1e-14*float64(n)*f {
			return nil
		}
		o.Label("rank decided")
		x := must(lin.NewRectangularCholeskyDecompositionWithThreshold(a, 1e-9*f))
		if x.Rank() != k {
			return fmt.Errorf("rank %d from the rectangular Cholesky decomposition, eigenvalues %v", x.Rank(), l)
		}
	case "square":
		if f > 1e140 || f < 1e-140 {
			return nil
		}
		w := make([]float64, n)
		for i := range w {
			w[i] = l[i] * l[i]
		}
		sortDesc(w)
		g := toDense(a.Multiply(a))
		for i := range g {
			for j := range g[:i] {
				g[i][j] = g[j][i]
			}
		}
		return sameValues("eigenvalues of the square", eigen(buildMat(c.Rep, g)), w, 3*tol*f)
	case "inertia": // of a congruent matrix, D A D with D > 0
		e := d.clone()
		w := make([]float64, n)
		for i := range w {
			w[i] = 1 + float64(r.intn(3))
		}
		for i := range e {
			for j := range e[i] {
				e[i][j] *= w[i] * w[j]
			}
		}
		g := eigen(buildMat(c.Rep, e))
		for i := range l {
			// Ostrowski: each eigenvalue is multiplied by something from 1 to 9
			lo, hi := l[i], 9*l[i]
			if l[i] < 0 {
				lo, hi = hi, lo
			}
			if !(g[i] >= lo-20*tol) || !(g[i] <= hi+20*tol) {
				return fmt.Errorf("eigenvalue %d of a congruent matrix is %v, from %v", i, g[i], l[i])
			}
		}
	case "doubled": // [A B; B A] has the eigenvalues of A+B and A-B; here B = xI
		x := float64(c.X) * f
		e := newDense(2*n, 2*n)
		for i := range d {
			for j := range d {
				e[i][j], e[n+i][n+j] = d[i][j], d[i][j]
			}
			e[i][n+i], e[n+i][i] = x, x
		}
		var w []float64
		for _, y := range l {
			w = append(w, y+x, y-x)
		}
		sortDesc(w)
		return sameValues("eigenvalues of the doubled matrix", eigen(buildMat(c.Rep, e)), w, 3*tol+2*eigTol(2*n)*math.Abs(x))
	default:
		hbug("way %q", c.Way)
	}
	return nil
}

var spectrumWays = []string{"transpose", "rearranged", "shifted", "Hessenberg", "Schur", "scaled", "negated", "block", "known"}

func eigenvaluesOf(m lin.RealMatrix) []complex128 {
	e := must(lin.NewEigenDecomposition(m))
	re, im := e.RealEigenvalues(), e.ImagEigenvalues()
	l := make([]complex128, len(re))
	for i := range l {
		l[i] = complex(re[i], im[i])
	}
	return l
}

// sameSpectrum pairs each number with the nearest one left.
func sameSpectrum(what string, got, want []complex128, tol float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d, want %d", what, len(got), len(want))
	}
	left := append([]complex128{}, got...)
	for _, w := range want {
		b := -1
		for i := range left {
			if b < 0 || cmplx.Abs(left[i]-w) < cmplx.Abs(left[b]-w) {
				b = i
			}
		}
		track(what, cmplx.Abs(left[b]-w)/tol)
		if !(cmplx.Abs(left[b]-w) <= tol) {
			return fmt.Errorf("%s: %v is missing, the nearest is %v (tolerance %.3g)", what, w, left[b], tol)
		}
		left = append(left[:b], left[b+1:]...)
	}
	return nil
}

// The eigenvalues of a normal matrix change by no more than the matrix does.
func checkSpectrumAgree(c AgreeCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	r := &splitmix{c.Seed}
	f := d.fro()
	tol := 20*float64(n+6)*float64(n)*eps*f + 1e-290
	l := eigenvaluesOf(a)
	o.NonTrivial(n > 1)
	o.Label(c.Way)
	is := func(what string, m lin.RealMatrix, g func(complex128) complex128, t float64) error {
		w := append([]complex128{}, l...)
		for i := range w {
			w[i] = g(w[i])
		}
		return sameSpectrum("eigenvalues "+what, eigenvaluesOf(m), w, t)
	}
	id := func(x complex128) complex128 { return x }
	switch c.Way {
	case "transpose":
		return is("of the transpose", a.Transpose(), id, tol)
	case "rearranged":
		return is("of the rearranged matrix", buildMat(c.Rep, shuffled(r, d, true)), id, tol)
	case "shifted":
		x := float64(c.X) * f
		e := d.clone()
		for i := range e {
			e[i][i] += x
		}
		return is("of the shifted matrix", buildMat(c.Rep, e), func(y complex128) complex128 { return y + complex(x, 0) }, tol*(2+math.Abs(float64(c.X))*math.Sqrt(float64(n))))
	case "negated":
		return is("of the negated matrix", a.ScalarMultiply(-1), func(y complex128) complex128 { return -y }, tol)
	case "scaled":
		return is("of the multiplied matrix", a.ScalarMultiply(3), func(y complex128) complex128 { return 3 * y }, 3*tol)
	case "Hessenberg":
		return is("of the Hessenberg form", must(lin.NewHessenbergTransformer(a)).H(), id, tol)
	case "Schur":
		return is("of the Schur form", must(lin.NewSchurTransformer(a)).T(), id, tol)
	case "block": // the direct sum with a number
		x := float64(c.X) * f
		i := c.I % (n + 1)
		e := newDense(n+1, n+1)
		e[i][i] = x
		for u := range d {
			for v := range d {
				s, t := u, v
				if s >= i {
					s++
				}
				if t >= i {
					t++
				}
				e[s][t] = d[u][v]
			}
		}
		return sameSpectrum("eigenvalues with one more", eigenvaluesOf(buildMat(c.Rep, e)), append(append([]complex128{}, l...), complex(x, 0)), tol*(3+math.Abs(float64(c.X))))
	case "known":
		w := c.A.spectrum()
		for i := range w {
			w[i] = complex(math.Ldexp(real(w[i]), c.A.E), math.Ldexp(imag(w[i]), c.A.E))
		}
		return sameSpectrum("eigenvalues the matrix was made with", l, w, tol)
	default:
		hbug("way %q", c.Way)
	}
	return nil
}

func init() {
	x := func(t *rapid.T) F { return F(oneOf(t, []float64{0, 1, -1, 0.5, 3, -0.125, 1e-3, -7}, "x")) }
	more := func(t *rapid.T, c AgreeCase, ways []string) AgreeCase {
		c.Way = oneOf(t, ways, "way")
		c.I, c.J, c.X = pick(t, 70, "i"), pick(t, 70, "j"), x(t)
		c.Rep = genRep(t, denseReps, "rep")
		c.Seed = uint64(pick(t, 1<<20, "seed2"))
		return c
	}
	Register("C31", "singular-values", "a nonzero matrix with at least two rows and columns", 20000, 200000,
		func(t *rapid.T) AgreeCase {
			r, c := genRect(t, 60)
			return more(t, AgreeCase{A: genLA(t, r, c, laGeneral, true)}, singularWays)
		}, checkSingularAgree)
	Register("C31", "symmetric", "a nonzero matrix of order at least two", 20000, 200000,
		func(t *rapid.T) AgreeCase {
			s := genSym(t, laDim(t, 40, "n"), append(append([]string{}, symAll...), "known+", "known+", "psdrank", "gram"), []int{0, 0, 0, 20, -20, 100, -100})
			return more(t, AgreeCase{S: &s}, symWays)
		}, checkSymAgree)
	Register("C31", "spectrum", "order at least two", 16000, 160000,
		func(t *rapid.T) AgreeCase {
			n := laDim(t, 40, "n")
			return more(t, AgreeCase{A: genLA(t, n, n, []string{"normal", "normal", "normal", "cyclic", "perm", "orth", "skew"}, true)}, spectrumWays)
		}, func(c AgreeCase, o *Obs) error {
			if c.Way == "known" && c.A.Kind != "normal" {
				c.Way = "transpose"
			}
			return checkSpectrumAgree(c, o)
		})
}
