package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type QRCase struct {
	A     LA
	Order int // order in which the accessors are called
}

// qrTol: relative to the Frobenius norm of the input.
func qrTol(m, n int) float64 { return 10 * float64(maxi(m, n)+4) * eps }

func genRect(t *rapid.T, max int) (int, int) {
	r := laDim(t, max, "rows")
	c := laDim(t, max, "cols")
	if pct(t, 30, "square") {
		c = r
	}
	return r, c
}

func checkQR(c QRCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(maxi(m, n) > 50, "large")
	o.NonTrivial(m > 1 && d.maxAbs() > 0)
	qr := must(lin.NewQRDecomposition(a))
	var q, r, qt, h Dense
	get := []func() error{
		func() error { q = toDense(qr.Q()); return shape("Q", qr.Q(), m, m) },
		func() error { r = toDense(qr.R()); return shape("R", qr.R(), m, n) },
		func() error { qt = toDense(qr.QT()); return shape("QT", qr.QT(), m, m) },
		func() error { h = toDense(qr.H()); return shape("H", qr.H(), m, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%4](); err != nil {
			return err
		}
	}
	tol := qrTol(m, n)
	if err := errs(
		sameDense("QT against the transpose of Q", qt, q.t()),
		zeroOutside("R", r, func(i, j int) bool { return j >= i }),
		zeroOutside("H", h, func(i, j int) bool { return j <= i }),
		orthonormal("Q", q, tol), orthonormal("QT", qt, tol),
		reproduces("QR", q.mul(r), d, tol),
		reproducesColumns("QR", q.mul(r), d, 2*tol),
	); err != nil {
		return err
	}
	// H holds the reflectors: applied in turn to the identity they give Q. A zero
	// column reflects nothing.
	w := identity(m)
	for j := 0; j < mini(m, n); j++ {
		vv, v := 0.0, make([]float64, m)
		for i := j; i < m; i++ {
			v[i] = h[i][j]
			if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
				return fmt.Errorf("H(%d,%d) is %v", i, j, v[i])
			}
			vv += v[i] * v[i]
		}
		if vv == 0 {
			continue
		}
		for i := range w {
			s := 0.0
			for k := j; k < m; k++ {
				s += w[i][k] * v[k]
			}
			s *= 2 / vv
			for k := j; k < m; k++ {
				w[i][k] -= s * v[k]
			}
		}
	}
	return reproduces("Q from the reflectors in H", w, q, 4*tol)
}

func shapeLabel(m, n int) string {
	switch {
	case m > n:
		return "tall"
	case m < n:
		return "wide"
	}
	return "square"
}

// ---- C13 ----------------------------------------------------------------------

type RRQRCase struct {
	A     LA
	Order int
}

func checkRRQR(c RRQRCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.LabelIf(maxi(m, n) > 50, "large")
	rr := must(lin.NewRRQRDecomposition(a))
	var q, r, qt, p Dense
	get := []func() error{
		func() error { q = toDense(rr.Q()); return shape("Q", rr.Q(), m, m) },
		func() error { r = toDense(rr.R()); return shape("R", rr.R(), m, n) },
		func() error { qt = toDense(rr.QT()); return shape("QT", rr.QT(), m, m) },
		func() error { p = toDense(rr.P()); return shape("P", rr.P(), n, n) },
	}
	for k := range get {
		if err := get[(k+c.Order)%4](); err != nil {
			return err
		}
	}
	moved := false
	for i := range p {
		moved = moved || p[i][i] != 1
	}
	o.LabelIf(moved, "columns-exchanged")
	o.NonTrivial(m > 1 && n > 1 && moved)
	tol := qrTol(m, n)
	if err := errs(
		sameDense("QT against the transpose of Q", qt, q.t()),
		zeroOutside("R", r, func(i, j int) bool { return j >= i }),
		orthonormal("Q", q, tol),
		permutationMatrix("P", p),
		reproduces("QR against AP", q.mul(r), d.mul(p), tol),
		reproducesColumns("QR against AP", q.mul(r), d.mul(p), 2*tol),
	); err != nil {
		return err
	}
	slack := 4 * tol * d.fro()
	for k := 0; k < mini(m, n); k++ {
		for j := k + 1; j < n; j++ {
			s := 0.0
			for i := k; i <= mini(j, m-1); i++ {
				s = math.Hypot(s, r[i][j])
			}
			if !(s <= math.Abs(r[k][k])+slack) {
				return fmt.Errorf("column %d has norm %v from row %d, over the pivot |R(%d,%d)| = %v", j, s, k, k, k, math.Abs(r[k][k]))
			}
		}
	}
	return nil
}

type RankCase struct {
	A LA
}

func checkRRQRRank(c RankCase, o *Obs) error {
	a, d := c.A.build()
	want := c.A.K
	if c.A.Kind != "frank" {
		want = intRank(d)
	}
	o.Label(c.A.Kind)
	o.NonTrivial(want > 0 && want < mini(d.rows(), d.cols()))
	o.LabelIf(want == 0, "rank 0")
	o.LabelIf(want == mini(d.rows(), d.cols()), "full rank")
	// scaled to Frobenius norm between 1/2 and 1 the threshold is a relative one
	rr := must(lin.NewRRQRDecomposition(a))
	f := d.fro()
	got := rr.Rank(1e-9 * f)
	if got != want {
		return fmt.Errorf("rank %d of a %dx%d matrix of rank %d (norm %.3g)", got, d.rows(), d.cols(), want, f)
	}
	return nil
}

// RankRuleCase: the documented rule for the rank, the first fall in the norms
// of the trailing parts of R with (this/last) * whole < threshold.
type RankRuleCase struct {
	A LA
	T []int // thresholds: norm times 2^-T/2
}

func checkRankRule(c RankRuleCase, o *Obs) error {
	a, d := c.A.build()
	rr := must(lin.NewRRQRDecomposition(a))
	r := toDense(rr.R())
	m, n := d.rows(), d.cols()
	p := mini(m, n)
	trail := make([]float64, p)
	for k := range trail {
		s := 0.0
		for i := k; i < m; i++ {
			for j := k; j < n; j++ {
				s = math.Hypot(s, r[i][j])
			}
		}
		trail[k] = s
	}
	o.Label(c.A.Kind)
	if trail[0] == 0 {
		return nil
	}
	for _, t := range c.T {
		thr := trail[0] * math.Pow(2, -float64(t)/2) * 1.0001
		want, doubt := p, false
		for k := 1; k < p; k++ {
			x := trail[k] / trail[k-1] * trail[0]
			if math.Abs(x-thr) <= 1e-7*thr {
				doubt = true
				break
			}
			if trail[k] == 0 || x < thr {
				want = k
				break
			}
		}
		if doubt {
			o.Label("on the edge")
			continue
		}
		o.NonTrivial(want < p)
		o.LabelIf(want > 1 && want < p, "partial")
		if got := rr.Rank(thr); got != want {
			return fmt.Errorf("rank %d for threshold %v, %d by the documented rule (norms of the trailing parts %v)", got, thr, want, trail)
		}
	}
	return nil
}

func init() {
	Register("C13", "rank-rule", "the rule stops before the smaller dimension", 30000, 300000,
		func(t *rapid.T) RankRuleCase {
			r, c := genRect(t, 24)
			return RankRuleCase{genLA(t, r, c, append([]string{"spectrum", "gradedcols", "gradedrows", "frank", "diag", "upper"}, laGeneral...), true), []int{pick(t, 10, "t"), pick(t, 110, "t")}}
		}, checkRankRule)
	Register("C12", "factors", "a nonzero matrix with at least two rows", 40000, 400000,
		func(t *rapid.T) QRCase {
			r, c := genRect(t, 65)
			x := QRCase{genLA(t, r, c, laGeneral, true), pick(t, 4, "order")}
			far(t, &x.A.E, 450)
			return x
		}, checkQR)
	Register("C13", "factors", "at least two rows and columns and the pivoting moved a column", 40000, 400000,
		func(t *rapid.T) RRQRCase {
			r, c := genRect(t, 65)
			x := RRQRCase{genLA(t, r, c, laGeneral, true), pick(t, 4, "order")}
			far(t, &x.A.E, 450)
			return x
		}, checkRRQR)
	Register("C13", "rank", "rank neither zero nor full", 40000, 400000,
		func(t *rapid.T) RankCase {
			r, c := genRect(t, 20)
			if pct(t, 10, "big") {
				r, c = genRect(t, 60)
				return RankCase{genLA(t, r, c, []string{"frank", "zero"}, true)}
			}
			a := genLA(t, r, c, []string{"rank", "rank", "frank", "frank", "zero", "ones", "dupcol", "zerocol", "duprow"}, true)
			if a.Kind != "frank" {
				a.E = 0
			}
			return RankCase{a}
		}, checkRRQRRank)
}
