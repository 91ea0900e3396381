package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type SingularCase struct {
	A   LA     `json:"a"`
	S   *Sym   `json:"s,omitempty"` // instead of A, for the eigen solver
	K   int    `json:"k"`           // right-hand sides
	Rep string `json:"brep"`
	Def bool   `json:"def,omitempty"` // LU with its default threshold
}

// refusesSingular: every way of solving is refused, and leaves the right-hand side alone.
func refusesSingular(name string, s lin.DecompositionSolver, m, k int, rep string) error {
	if s.IsNonSingular() {
		return fmt.Errorf("%s: a singular matrix is reported nonsingular", name)
	}
	b := newDense(m, k)
	for i := range b {
		for j := range b[i] {
			b[i][j] = float64(1 + i - 2*j)
		}
	}
	bm, bv := buildMat(rep, b), buildVec("array", col(b, 0))
	var x interface{}
	if err := errs(
		refusedAs(name+": solving a singular system for a vector", attempt(func() { x = s.SolveVector(bv) }), lin.ESING),
		refusedAs(name+": solving a singular system for a matrix", attempt(func() { x = s.SolveMatrix(bm) }), lin.ESING),
		refusedAs(name+": inverting a singular matrix", attempt(func() { x = s.Inverse() }), lin.ESING),
		matchModel(name+": right-hand side after a refusal", bm, b),
		matchVec(name+": right-hand side after a refusal", bv, col(b, 0)),
	); err != nil {
		return fmt.Errorf("%v%.0v", err, x)
	}
	if s.IsNonSingular() {
		return fmt.Errorf("%s: a singular matrix is reported nonsingular after a refusal", name)
	}
	return nil
}

// firstDependent is the first column that depends on those before it (exact),
// and the condition of those.
func firstDependent(d Dense) (int, float64) {
	for j := 0; j < d.cols(); j++ {
		p := newDense(d.rows(), j+1)
		for i := range p {
			copy(p[i], d[i][:j+1])
		}
		if intRank(p) <= j {
			if j == 0 {
				return 0, 1
			}
			q := newDense(d.rows(), j)
			for i := range q {
				copy(q[i], d[i][:j])
			}
			kappa, _ := spaces(q, j)
			return j, kappa
		}
	}
	return -1, 0
}

func checkSingularMatrix(c SingularCase, o *Obs) error {
	if c.S != nil {
		a, d := c.S.build()
		n := len(d)
		o.Label("eigen " + c.S.Kind)
		if intRank(c.S.unscaled()) == n {
			o.Label("regular")
			return nil
		}
		o.NonTrivial(n > 1)
		return refusesSingular("eigen", must(lin.NewEigenDecomposition(a)).Solver(), n, c.K, c.Rep)
	}
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	j, kappa := firstDependent(c.A.unscaled())
	if j < 0 {
		o.Label("regular")
		return nil
	}
	size := float64(maxi(m, n)) + 4
	rel := 1e3 * eps * size * kappa
	if !(rel < 1e-4) {
		o.Label("too ill conditioned")
		return nil
	}
	o.NonTrivial(n > 1)
	thr := rel * d.fro()
	if d.maxAbs() == 0 {
		thr = 1e-12
		o.Label("zero matrix")
	}
	exact := false // the factors have an exact zero on the diagonal
	switch c.A.Kind {
	case "zero", "zerocol":
		exact = true
	}
	if m == n {
		lu := must(lin.NewLUDecompositionWithThreshold(a, thr))
		if c.Def && c.A.E == 0 && thr < 1e-9 {
			lu = must(lin.NewLUDecomposition(a))
			o.Label("LU default threshold")
		}
		if !c.Def || thr < 1e-12 || exact {
			if err := refusesSingular("LU", lu.Solver(), m, c.K, c.Rep); err != nil {
				return err
			}
			if det := lu.Determinant(); det != 0 {
				return fmt.Errorf("LU: determinant %v of a singular matrix", det)
			}
		}
	}
	qthr := thr
	if exact && c.Def {
		qthr = 0
		o.Label("QR zero threshold")
	}
	qr, rr := must(lin.NewQRDecompositionWithThreshold(a, qthr)), must(lin.NewRRQRDecompositionWithThreshold(a, qthr))
	if exact && c.Def {
		qr, rr = must(lin.NewQRDecomposition(a)), must(lin.NewRRQRDecomposition(a))
	}
	return errs(refusesSingular("QR", qr.Solver(), m, c.K, c.Rep), refusesSingular("RRQR", rr.Solver(), m, c.K, c.Rep))
}

// The verdict changes exactly at the smallest pivot.
type BoundaryCase struct {
	A LA `json:"a"`
}

func checkBoundary(c BoundaryCase, o *Obs) error {
	a, d := c.A.build()
	m, n := d.rows(), d.cols()
	o.Label(c.A.Kind)
	o.Label(shapeLabel(m, n))
	o.NonTrivial(n > 1 && m > 1)
	smallest := func(u Dense) float64 {
		p := math.Inf(1)
		for i := 0; i < mini(u.rows(), u.cols()); i++ {
			p = math.Min(p, math.Abs(u[i][i]))
		}
		return p
	}
	type verdict struct {
		name string
		at   func(thr float64) bool
		p    float64
		incl bool // singular at the pivot itself
	}
	qr, rr := must(lin.NewQRDecomposition(a)), must(lin.NewRRQRDecomposition(a))
	vs := []verdict{
		{"QR", func(thr float64) bool {
			return must(lin.NewQRDecompositionWithThreshold(a, thr)).Solver().IsNonSingular()
		}, smallest(toDense(qr.R())), true},
		{"RRQR", func(thr float64) bool {
			return must(lin.NewRRQRDecompositionWithThreshold(a, thr)).Solver().IsNonSingular()
		}, smallest(toDense(rr.R())), true},
	}
	if m == n {
		if lu := must(lin.NewLUDecompositionWithThreshold(a, 1e-300)); lu.Solver().IsNonSingular() {
			vs = append(vs, verdict{"LU", func(thr float64) bool {
				l := must(lin.NewLUDecompositionWithThreshold(a, thr))
				ok := l.Solver().IsNonSingular()
				if ok != (l.L() != nil) || ok != (l.U() != nil) || ok != (l.P() != nil) {
					panic("the factors contradict the verdict")
				}
				return ok
			}, smallest(toDense(lu.U())), false})
		}
	}
	for _, v := range vs {
		if !(v.p > 1e-290) || math.IsInf(v.p, 0) {
			o.Label("pivot zero")
			if v.at(math.Max(2*v.p, 1e-280)) {
				return fmt.Errorf("%s: pivot %v is reported nonsingular with a threshold over it", v.name, v.p)
			}
			continue
		}
		o.Label("boundary " + v.name)
		lo, hi := v.p, math.Nextafter(v.p, math.Inf(1)) // last threshold that passes, first that fails
		if v.incl {
			lo, hi = math.Nextafter(v.p, 0), v.p
		}
		for _, thr := range []float64{0, v.p / 2, lo} {
			if v.name == "LU" && thr == 0 {
				continue
			}
			if !v.at(thr) {
				return fmt.Errorf("%s: smallest pivot %v is reported singular at threshold %v", v.name, v.p, thr)
			}
		}
		for _, thr := range []float64{hi, 2 * v.p, 1e6 * d.fro()} {
			if v.at(thr) {
				return fmt.Errorf("%s: smallest pivot %v is reported nonsingular at threshold %v", v.name, v.p, thr)
			}
		}
	}
	return nil
}

// Rows of a diagonal matrix in any order: the pivots are the entries themselves.
type DefaultCase struct {
	Rep  string `json:"rep"`
	Perm []int  `json:"perm"`
	Neg  int    `json:"neg"` // bits: which entries are negative
	E    []int  `json:"e"`   // entry i is 1.25 times this power of 2; 1 for zero
}

func checkDefaults(c DefaultCase, o *Obs) error {
	n := len(c.Perm)
	d := newDense(n, n)
	min := math.Inf(1)
	for j, i := range c.Perm {
		v := 0.0
		if c.E[j] <= 0 {
			v = math.Ldexp(1.25, c.E[j])
		}
		min = math.Min(min, v)
		if c.Neg>>uint(j)&1 == 1 {
			v = -v
		}
		d[i][j] = v
	}
	a := buildMat(c.Rep, d)
	o.NonTrivial(min > 0 && min < 1e-6)
	lu, qr, rr := must(lin.NewLUDecomposition(a)), must(lin.NewQRDecomposition(a)), must(lin.NewRRQRDecomposition(a))
	for _, v := range []struct {
		name string
		got  bool
		thr  float64
	}{{"LU", lu.Solver().IsNonSingular(), 1e-11}, {"QR", qr.Solver().IsNonSingular(), 0}, {"RRQR", rr.Solver().IsNonSingular(), 0}} {
		want := min > v.thr
		o.LabelIf(want, v.name+" regular")
		if v.got != want {
			return fmt.Errorf("%s: smallest pivot %v, default threshold %v: nonsingular is %v", v.name, min, v.thr, v.got)
		}
	}
	return nil
}

// Well conditioned matrices are never reported singular by default.
type RegularCase struct {
	A LA   `json:"a"`
	S *Sym `json:"s,omitempty"`
}

func checkRegular(c RegularCase, o *Obs) error {
	var a lin.RealMatrix
	var d Dense
	kind, e := c.A.Kind, c.A.E
	if c.S != nil {
		a, d = c.S.build()
		kind, e = "sym "+c.S.Kind, c.S.E
	} else {
		a, d = c.A.build()
	}
	o.Label(kind)
	_, kappa := invRef(d)
	if !(kappa < 1e5) || d.maxAbs() == 0 {
		o.Label("too ill conditioned")
		return nil
	}
	o.NonTrivial(len(d) > 1)
	var ss []solverOf
	if e > -500 && e < 500 { // beyond, the squares and the default tolerance of the SVD do not reach
		ss = append(ss,
			solverOf{name: "QR", s: must(lin.NewQRDecomposition(a)).Solver()},
			solverOf{name: "RRQR", s: must(lin.NewRRQRDecomposition(a)).Solver()},
			solverOf{name: "SVD", s: must(lin.NewSingularValueDecomposition(a)).Solver()})
	}
	if e >= 0 && d.maxAbs() > 1e-3 {
		ss = append(ss, solverOf{name: "LU", s: must(lin.NewLUDecomposition(a)).Solver()})
	}
	if c.S != nil {
		ss = append(ss, solverOf{name: "eigen", s: must(lin.NewEigenDecomposition(a)).Solver()})
	}
	for _, s := range ss {
		if !s.s.IsNonSingular() {
			return fmt.Errorf("%s: a matrix of condition %.3g is reported singular", s.name, kappa)
		}
		if p := attempt(func() { s.s.Inverse() }); p != nil {
			return fmt.Errorf("%s: a matrix of condition %.3g is not inverted: %v", s.name, kappa, p)
		}
	}
	return nil
}

func init() {
	reps := append([]string{"default"}, denseReps...)
	Register("C23", "singular", "an exactly singular matrix of at least two columns", 30000, 400000,
		func(t *rapid.T) SingularCase {
			c := SingularCase{K: 1 + pick(t, 3, "k"), Rep: genRep(t, reps, "brep"), Def: pct(t, 50, "default")}
			if pct(t, 25, "sym") {
				s := genSym(t, 1+pick(t, 24, "n"), []string{"psdrank", "psdrank", "ones", "zero", "tiny", "anti", "tridiag", "ldl", "arrow"}, []int{0, 0, 0, 35, -35, 100, -100, 250, -250})
				switch s.Kind {
				case "anti", "tridiag", "arrow":
					s.Kind = "tiny"
				}
				c.S = &s
				return c
			}
			n := 1 + pick(t, 14, "n")
			m := n
			if pct(t, 30, "tall") {
				m = n + 1 + pick(t, 6, "m")
			}
			c.A = genLA(t, m, n, []string{"rank", "rank", "zero", "zerocol", "zerocol", "zerorow", "dupcol", "dupcol", "duprow", "ones", "tiny", "strict"}, false)
			if c.A.Kind == "strict" && m != n {
				c.A.Kind = "zerocol"
			}
			c.A.E = oneOf(t, []int{0, 0, 0, 35, -35, 100, -100, 250, -250}, "scale")
			return c
		}, checkSingularMatrix)
	Register("C23", "threshold", "at least two rows and columns", 12000, 200000,
		func(t *rapid.T) BoundaryCase {
			r, c := genRect(t, 56)
			if pct(t, 40, "square") {
				r = c
			}
			return BoundaryCase{genLA(t, r, c, without(laGeneral, "speck"), true)}
		}, checkBoundary)
	Register("C23", "defaults", "the smallest pivot is under 1e-6 and not zero", 4000, 60000,
		func(t *rapid.T) DefaultCase {
			n := 1 + pick(t, 6, "n")
			c := DefaultCase{Rep: genRep(t, reps, "rep"), Neg: pick(t, 64, "neg")}
			for i := 0; i < n; i++ {
				c.Perm = append(c.Perm, i)
				k := pick(t, i+1, "perm")
				c.Perm[i], c.Perm[k] = c.Perm[k], c.Perm[i]
				e := -pick(t, 8, "e")
				if pct(t, 40, "small") {
					e = -oneOf(t, []int{20, 30, 34, 36, 37, 38, 40, 46, 52, 60, 200}, "by")
				}
				if pct(t, 5, "zero") {
					e = 1
				}
				c.E = append(c.E, e)
			}
			return c
		}, checkDefaults)
	Register("C23", "regular", "order at least 2, condition under 1e5", 8000, 120000,
		func(t *rapid.T) RegularCase {
			n := laDim(t, 60, "n")
			if pct(t, 50, "sym") {
				s := genSym(t, n, []string{"explicit", "tiny", "int", "float", "identity", "diag", "tridiag", "known", "known+", "posdiag", "anti", "repeated"}, []int{0, 0, 0, 0, 20, 100, -20, -100, 250, -250})
				if s.Kind == "diag" || s.Kind == "identity" || s.Kind == "posdiag" {
					s.E = oneOf(t, []int{0, 0, 200, -200, 600, -600}, "far")
				}
				return RegularCase{S: &s}
			}
			return RegularCase{A: genLA(t, n, n, []string{"explicit", "tiny", "int", "float", "wide", "identity", "diag", "upper", "lower", "perm", "orth", "spectrum", "clustered", "cyclic", "companion", "skew", "normal", "gradedcols"}, true)}
		}, checkRegular)
}
