package main

import (
	"fmt"
	"math"
	"sort"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// knownSingular: the singular values a matrix was built with, largest first;
// nil when the construction does not say.
func (a LA) knownSingular() []float64 {
	r := &splitmix{a.Seed}
	p := mini(a.R, a.C)
	s := make([]float64, p)
	switch a.Kind {
	case "spectrum":
		copy(s, spectrumOf(r, p, a.K))
	case "clustered":
		for i := range s {
			s[i] = []float64{1, 1, 1 + 1e-14, 0.5, 0.5}[r.intn(5)]
		}
	case "frank":
		for i := 0; i < a.K; i++ {
			s[i] = 0.1 + 0.9*r.unit()
		}
	case "orth", "perm", "identity":
		if a.Kind == "perm" && a.R > a.C {
			// the first C rows of a signed permutation
			for i := range s {
				s[i] = 1
			}
			break
		}
		for i := range s {
			s[i] = 1
		}
	case "zero":
	case "ones":
		s[0] = math.Sqrt(float64(a.R) * float64(a.C))
	case "diag":
		for i := range s {
			s[i] = math.Abs(expand(r, dInt))
			if s[i] == 0 {
				s[i] = 4
			}
		}
	case "anti":
		for i := range s {
			s[i] = 1 + r.unit()
		}
	default:
		return nil
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(s)))
	for i := range s {
		s[i] = math.Ldexp(s[i], a.E)
	}
	return s
}

type SVDCase struct {
	A     LA
	Order int
}

func svdTol(m, n int) float64 { return 10 * float64(maxi(m, n)+6) * eps }

func checkSVD(c SVDCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	p := mini(m, n)
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(maxi(m, n) > 50, "large")
	o.NonTrivial(p > 1 && d.maxAbs() > 0)
	sv := must(lin.NewSingularValueDecomposition(a))
	var u, ut, s, v, vt Dense
	get := []func() error{
		func() error { u = toDense(sv.U()); return shape("U", sv.U(), m, p) },
		func() error { ut = toDense(sv.UT()); return shape("UT", sv.UT(), p, m) },
		func() error { s = toDense(sv.S()); return shape("S", sv.S(), p, p) },
		func() error { v = toDense(sv.V()); return shape("V", sv.V(), n, p) },
		func() error { vt = toDense(sv.VT()); return shape("VT", sv.VT(), p, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%5](); err != nil {
			return err
		}
	}
	w := sv.SingularValues()
	if len(w) != p {
		return fmt.Errorf("%d singular values of a %dx%d matrix", len(w), m, n)
	}
	for i, x := range w {
		if !(x >= 0) || (i > 0 && x > w[i-1]) {
			return fmt.Errorf("singular values %v are not non-negative and descending", w)
		}
		if s[i][i] != x {
			return fmt.Errorf("S(%d,%d) is %v, singular value %v", i, i, s[i][i], x)
		}
	}
	tol := svdTol(m, n)
	if err := errs(
		zeroOutside("S", s, func(i, j int) bool { return i == j }),
		sameDense("UT against the transpose of U", ut, u.t()),
		sameDense("VT against the transpose of V", vt, v.t()),
		orthonormal("U", u, tol), orthonormal("V", v, tol),
		reproduces("USV'", u.mul(s).mul(vt), d, tol),
	); err != nil {
		return err
	}
	f := d.fro()
	if known := c.A.knownSingular(); known != nil {
		o.Label("known-singular-values")
		for i := range known {
			track("known", math.Abs(w[i]-known[i])/(tol*f+1e-290))
			if err := close_(fmt.Sprintf("singular value %d", i), w[i], known[i], tol*f+1e-290); err != nil {
				return err
			}
		}
	}
	st := must(lin.NewSingularValueDecomposition(buildMat(c.A.Rep, d.t()))).SingularValues()
	for i := range w {
		if err := close_(fmt.Sprintf("singular value %d of the transpose", i), st[i], w[i], tol*f+1e-290); err != nil {
			return err
		}
	}
	return nil
}

// ---- C16 ----------------------------------------------------------------------

type SpectrumCase struct {
	A LA
	I int // which singular value is the covariance cutoff
	B int // 0: just at it, 1: between it and the next smaller, 2: at most the smallest singular value
}

func checkNorms(c SpectrumCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	p := mini(m, n)
	sv := must(lin.NewSingularValueDecomposition(a))
	w := sv.SingularValues()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(c.A.E < 0, "small-scale")
	o.LabelIf(maxi(m, n) > 50, "large")
	tol := svdTol(m, n)
	if sv.Norm() != w[0] {
		return fmt.Errorf("norm %v, largest singular value %v", sv.Norm(), w[0])
	}
	rank := rankOf(c.A, d)
	o.NonTrivial(p > 1 && rank > 0)
	o.LabelIf(rank < p, "rank-deficient")
	if known := c.A.knownSingular(); known != nil {
		if err := close_("norm", sv.Norm(), known[0], tol*d.fro()+1e-290); err != nil {
			return err
		}
	}
	if w[0] > 0 {
		if err := close_("inverse condition number", sv.InverseConditionNumber(), w[p-1]/w[0], 4*eps*w[p-1]/w[0]); err != nil {
			return err
		}
		if w[p-1] > 0 {
			if err := close_("condition number", sv.ConditionNumber(), w[0]/w[p-1], 4*eps*w[0]/w[p-1]); err != nil {
				return err
			}
		} else if !math.IsInf(sv.ConditionNumber(), 1) {
			return fmt.Errorf("condition number %v with a zero singular value", sv.ConditionNumber())
		}
	}
	if got := sv.Rank(); got != rank {
		return fmt.Errorf("rank %d of a %dx%d matrix of rank %d, singular values %v", got, m, n, rank, w)
	}
	if nonsing := sv.Solver().IsNonSingular(); nonsing != (m == n && rank == n) {
		return fmt.Errorf("a %dx%d matrix of rank %d is reported nonsingular: %v", m, n, rank, nonsing)
	}
	return nil
}

// rankOf: the rank the construction implies.
func rankOf(a LA, d Dense) int {
	switch a.Kind {
	case "frank":
		return a.K
	case "spectrum", "clustered", "orth":
		return mini(a.R, a.C)
	}
	return intRank(a.unscaled())
}

func checkCovariance(c SpectrumCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	sv := must(lin.NewSingularValueDecomposition(a))
	w := sv.SingularValues()
	o.Label(shapeLabel(m, n))
	rank := rankOf(c.A, d)
	over := math.Nextafter(w[0], math.Inf(1))
	if err := refusedAs("covariance with a cutoff over the largest singular value", attempt(func() { sv.Covariance(over) }), lin.ENBIG); err != nil {
		return err
	}
	if rank == 0 {
		return nil
	}
	i := c.I % rank
	cut := w[i]
	if c.B == 1 && i+1 < len(w) {
		cut = (w[i] + w[i+1]) / 2
	}
	if last := w[len(w)-1]; c.B == 2 && last > 1e-140 && last < 1e140 {
		cut = []float64{last, last / 2, 0, -1}[c.I%4] // everything, what rounding left of a zero included
		o.LabelIf(rank < len(w), "kept below the rank")
	}
	keep := 0
	for keep < len(w) && w[keep] >= cut {
		keep++
	}
	o.LabelIf(keep < rank, "truncated")
	o.NonTrivial(n > 1 && keep > 0)
	cov := toDense(sv.Covariance(cut))
	v := toDense(sv.V())
	want := newDense(n, n)
	for r := range want {
		for s := range want {
			for k := 0; k < keep; k++ {
				want[r][s] += v[r][k] / w[k] * (v[s][k] / w[k])
			}
		}
	}
	return near("covariance", cov, want, 1e-12*float64(n)/(w[keep-1]*w[keep-1]))
}

func checkPseudo(c SpectrumCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	sv := must(lin.NewSingularValueDecomposition(a))
	w := sv.SingularValues()
	rank := rankOf(c.A, d)
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.NonTrivial(rank > 0 && mini(m, n) > 1)
	o.LabelIf(rank < mini(m, n), "rank-deficient")
	inv := sv.Solver().Inverse()
	if err := shape("pseudo-inverse", inv, n, m); err != nil {
		return err
	}
	x := toDense(inv)
	if rank == 0 {
		return zeroOutside("pseudo-inverse of the zero matrix", x, func(i, j int) bool { return false })
	}
	cond := w[0] / w[rank-1]
	if cond > 1e7 {
		o.Label("ill-conditioned")
		return nil
	}
	tol := svdTol(m, n) * 10 * cond * float64(mini(m, n))
	ax, xa := d.mul(x), x.mul(d)
	return errs(
		near("A A+ A", ax.mul(d), d, tol*d.fro()),
		near("A+ A A+", xa.mul(x), x, tol*x.fro()),
		near("A A+ against its transpose", ax, ax.t(), tol),
		near("A+ A against its transpose", xa, xa.t(), tol),
	)
}

var rankKinds = []string{"rank", "rank", "frank", "frank", "frank", "spectrum", "clustered", "orth", "zero", "ones", "dupcol", "zerocol", "duprow", "zerorow", "identity", "diag", "perm"}

func genSpectrum(t *rapid.T) SpectrumCase {
	r, c := genRect(t, 14)
	kinds := rankKinds
	if pct(t, 8, "big") {
		r, c = genRect(t, 60)
		kinds = []string{"frank", "spectrum", "clustered", "orth"}
	}
	a := genLA(t, r, c, kinds, true)
	return SpectrumCase{a, pick(t, mini(r, c), "i"), pick(t, 3, "b")}
}

func init() {
	Register("C15", "factors", "a nonzero matrix with at least two rows and columns", 30000, 300000,
		func(t *rapid.T) SVDCase {
			r, c := genRect(t, 65)
			x := SVDCase{genLA(t, r, c, laGeneral, true), pick(t, 5, "order")}
			far(t, &x.A.E, 450)
			return x
		}, checkSVD)
	Register("C16", "norm-rank-condition", "a nonzero matrix with at least two rows and columns", 60000, 600000, genSpectrum, checkNorms)
	Register("C16", "covariance", "at least two columns and one singular value kept", 40000, 400000, genSpectrum, checkCovariance)
	Register("C16", "pseudo-inverse", "a nonzero matrix with at least two rows and columns", 40000, 400000, genSpectrum, checkPseudo)
}
