package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type RootCase struct {
	A     Sym
	Small int // the threshold is 2^Small times the scale of the matrix; 0: the default constructor
}

func checkRoot(c RootCase, o *Obs) error {
	a, d := c.A.build()
	n := len(d)
	o.Label(c.A.Kind)
	o.LabelIf(n > 50, "large")
	max := d.maxAbs()
	if max == 0 { // a root of rank 0 has no columns: no matrix to return
		o.Label("zero")
		return nil
	}
	small := 0.0
	var rc *lin.RectangularCholeskyDecomposition
	var p interface{}
	if c.Small != 0 {
		small = math.Ldexp(1, c.Small) * max
		p = tried(func() (err error) { rc, err = lin.NewRectangularCholeskyDecompositionWithThreshold(a, small); return })
	} else {
		p = tried(func() (err error) { rc, err = lin.NewRectangularCholeskyDecomposition(a); return })
	}
	if p != nil {
		return fmt.Errorf("positive semidefinite matrix refused: %v", p)
	}
	b := toDense(rc.RootMatrix())
	r := rc.Rank()
	o.NonTrivial(n > 1)
	o.LabelIf(r < n, "rank-deficient")
	if err := shape("root", rc.RootMatrix(), n, r); err != nil {
		return err
	}
	tol := 1.01*small + 8*float64(n+4)*eps*max*float64(n)
	e := b.mul(b.t()).sub(d).maxAbs()
	track("root", e/tol)
	if err := near("root times its transpose", b.mul(b.t()), d, tol); err != nil {
		return err
	}
	want := -1
	switch c.A.Kind {
	case "psdrank":
		want = intRank(c.A.unscaled())
	case "psdfrank":
		want = c.A.K
	case "gram", "posdiag", "identity", "ldl":
		want = n
	case "ones":
		want = 1
	}
	if want > r {
		// the root leaves out what is under the threshold: the rank it lost must be
		// no larger
		if l := jacobiEigenvalues(d); l[want-1] <= float64(n)*tol {
			o.Label("rank lost to the threshold")
			want = r
		}
	}
	if want >= 0 && want != r {
		return fmt.Errorf("rank %d of a matrix of rank %d (threshold %.3g, largest entry %v)", r, want, small, max)
	}
	return nil
}

type RootRefuse struct {
	A    Sym
	R, C int // different: a matrix of this shape
	Dist string
}

func checkRootRefuse(c RootRefuse, o *Obs) error {
	o.NonTrivial(true)
	if c.R != c.C {
		o.Label("not-square")
		a := buildMat(c.A.Rep, LA{Kind: c.Dist, R: c.R, C: c.C, Seed: c.A.Seed}.dense())
		return refusedAs(fmt.Sprintf("root of a %dx%d matrix", c.R, c.C), tried(func() error { _, err := lin.NewRectangularCholeskyDecomposition(a); return err }), lin.ESQMAT)
	}
	o.Label("negative-pivot")
	a, d := c.A.build()
	return refusedAs("root of a matrix with a negative pivot", tried(func() error {
		_, err := lin.NewRectangularCholeskyDecompositionWithThreshold(a, 1e-9*d.maxAbs())
		return err
	}), lin.ENSMALL)
}

// Diagonal matrices, where the pivots are the entries: those over the threshold
// count, those under its negative are refused.
type RootEdge struct {
	Rep   string `json:"rep"`
	D     []int  `json:"d"`     // index into edgeFactors
	Small int    `json:"small"` // the threshold is 2^-Small; 0: the default one, zero
}

var edgeFactors = []float64{-1e6, -3, -1.25, -0.75, -0.125, 0, 0.125, 0.75, 1.25, 3, 40, 1e6}

func diagOf(d Dense) []float64 {
	v := make([]float64, len(d))
	for i := range v {
		v[i] = d[i][i]
	}
	return v
}

func checkRootEdge(c RootEdge, o *Obs) error {
	n := len(c.D)
	d := newDense(n, n)
	small, unit := math.Ldexp(1, -c.Small), math.Ldexp(1, -c.Small)
	if c.Small == 0 {
		small = 0
		o.Label("default")
	}
	rank, neg := 0, false
	for i, k := range c.D {
		d[i][i] = unit * edgeFactors[k]
		if d[i][i] > small {
			rank++
		}
		neg = neg || d[i][i] < -small
	}
	a := buildMat(c.Rep, d)
	var rc *lin.RectangularCholeskyDecomposition
	p := tried(func() (err error) {
		if c.Small == 0 {
			rc, err = lin.NewRectangularCholeskyDecomposition(a)
		} else {
			rc, err = lin.NewRectangularCholeskyDecompositionWithThreshold(a, small)
		}
		return
	})
	o.NonTrivial(n > 1)
	if neg || rank == 0 {
		o.LabelIf(neg, "negative")
		what := fmt.Sprintf("root of the diagonal matrix of %v at threshold %v", diagOf(d), small)
		if err := refusedAs(what, p, lin.ENSMALL); err != nil {
			return err
		}
		for i := range d {
			if v := d[i][i]; (rank == 0 && v <= small || v < -small) && pointsAt(what, p, i, i, small) == nil {
				return nil
			}
		}
		return fmt.Errorf("%s: %v names no such entry", what, p)
	}
	if p != nil {
		return fmt.Errorf("root of the diagonal matrix of %v at threshold %v refused: %v", diagOf(d), small, p)
	}
	b := toDense(rc.RootMatrix())
	if rc.Rank() != rank || b.cols() != rank {
		return fmt.Errorf("root of the diagonal matrix of %v at threshold %v: rank %d, %d columns, want %d", diagOf(d), small, rc.Rank(), b.cols(), rank)
	}
	w := newDense(n, n)
	for i := range d {
		if d[i][i] > small {
			w[i][i] = d[i][i]
		}
	}
	return near("root times its transpose", b.mul(b.t()), w, 4*eps*d.maxAbs())
}

func init() {
	Register("C14", "threshold", "order at least 2", 10000, 100000,
		func(t *rapid.T) RootEdge {
			c := RootEdge{Rep: genRep(t, denseReps, "rep")}
			if pct(t, 70, "explicit") {
				c.Small = 1 + pick(t, 60, "small")
			}
			lo := 3 // mostly entries that are not refused
			if pct(t, 40, "negative") {
				lo = 0
			}
			for i, n := 0, 1+pick(t, 8, "n"); i < n; i++ {
				k := lo + pick(t, len(edgeFactors)-lo, "d")
				if c.Small == 0 && lo > 0 && k < 5 {
					k = 5
				}
				c.D = append(c.D, k)
			}
			return c
		}, checkRootEdge)
	Register("C14", "root", "order at least 2", 60000, 600000,
		func(t *rapid.T) RootCase {
			n := laDim(t, 65, "n")
			c := RootCase{A: genSym(t, n, []string{"psdrank", "psdrank", "psdfrank", "psdfrank", "gram", "posdiag", "identity", "ones", "ldl"}, []int{0, 0, 0, 0, 20, -20, 100, -100, 250, -250})}
			c.Small = -22 - pick(t, 10, "small")
			switch c.A.Kind {
			case "psdrank", "psdfrank":
				if c.A.K == 0 {
					c.A.K = 1
				}
			case "gram":
				c.A.K = 0 // pivots at least 1
				if n > 24 {
					c.Small = -30
				}
			case "posdiag", "identity":
				if pct(t, 50, "default") {
					c.Small = 0
				}
			}
			return c
		}, checkRoot)
	Register("C14", "refusals", "every case", 30000, 300000,
		func(t *rapid.T) RootRefuse {
			c := RootRefuse{R: 1, C: 1}
			if pct(t, 50, "shape") {
				c.R, c.C = laDim(t, 60, "r"), laDim(t, 60, "c")
				if c.R == c.C {
					c.C++
				}
				c.Dist = oneOf(t, []string{"float", "identity", "ones", "zero"}, "dist")
				c.A = Sym{Rep: genRep(t, denseReps, "rep"), Seed: uint64(pick(t, 1000, "seed"))}
				return c
			}
			// negative definite on one coordinate of an otherwise diagonal matrix,
			// or L D L' with one pivot below zero in every elimination order
			c.A = genSym(t, 1+pick(t, 20, "n"), []string{"negdir"}, nil)
			return c
		}, checkRootRefuse)
}
