package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// EndCase: a matrix with some entries replaced by NaN, infinities and numbers
// near the ends of the range, given to one decomposition.
type EndCase struct {
	Dec   string `json:"dec"`
	A     LA     `json:"a"`
	Sym   bool   `json:"sym"` // the base is made symmetric
	Boost F      `json:"boost,omitempty"`
	At    []Spot `json:"at"`
	Both  bool   `json:"both"` // each entry is planted on both sides of the diagonal
	Order int    `json:"order"`
	Vec   string `json:"vec"`
}

type Spot struct {
	I, J int
	V    F
}

func (c EndCase) build() (lin.RealMatrix, Dense) {
	d := c.A.dense()
	if c.Sym {
		for i := range d {
			for j := 0; j < i; j++ {
				d[i][j] = d[j][i]
			}
			d[i][i] += float64(c.Boost)
		}
	}
	for _, s := range c.At {
		i, j := s.I%d.rows(), s.J%d.cols()
		d[i][j] = float64(s.V)
		if c.Both {
			d[j][i] = float64(s.V)
		}
	}
	return buildMat(c.A.Rep, d), d
}

func finiteAll(xs []float64) bool {
	for _, x := range xs {
		if !finite(x) {
			return false
		}
	}
	return true
}

// construct calls the constructor alone; a panic of any kind is a failure.
func (c EndCase) construct(a lin.RealMatrix, d Dense) (err error) {
	p := attempt(func() {
		switch c.Dec {
		case "LU":
			_, err = lin.NewLUDecomposition(a)
		case "QR":
			_, err = lin.NewQRDecomposition(a)
		case "RRQR":
			_, err = lin.NewRRQRDecomposition(a)
		case "Cholesky":
			_, err = lin.NewDefaultCholeskyDecomposition(a)
		case "root":
			_, err = lin.NewRectangularCholeskyDecomposition(a)
		case "SVD":
			_, err = lin.NewSingularValueDecomposition(a)
		case "eigen":
			_, err = lin.NewEigenDecomposition(a)
		case "eigentri":
			main, sec := tridiagonalOf(d)
			_, err = lin.NewEigenDecompositionFromTridiagonal(main, sec)
		case "Hessenberg":
			_, err = lin.NewHessenbergTransformer(a)
		case "tridiagonal":
			_, err = lin.NewTriDiagonalTransformer(a)
		case "bidiagonal":
			_, err = lin.NewBiDiagonalTransformer(a)
		case "Schur":
			_, err = lin.NewSchurTransformer(a)
		default:
			hbug("decomposition %q", c.Dec)
		}
	})
	if p != nil {
		panic(fmt.Sprintf("the constructor panicked with %v instead of returning an error", p))
	}
	return err
}

func tridiagonalOf(d Dense) (main, sec []float64) {
	n := len(d)
	main, sec = make([]float64, n), make([]float64, n-1)
	for i := range main {
		main[i] = d[i][i]
		if i > 0 {
			sec[i-1] = d[i][i-1]
		}
	}
	return
}

func checkEnds(c EndCase, o *Obs) error {
	a, d := c.build()
	m := d.rows()
	o.Label(c.Dec)
	bad := !finiteDense(d)
	o.LabelIf(bad, "not finite")
	if err := c.construct(a, d); err != nil {
		o.Label("refused")
		o.NonTrivial(true)
		var allowed []int
		switch c.Dec {
		case "Cholesky":
			allowed = []int{lin.ESYMM, lin.ENSMALL}
		case "root":
			allowed = []int{lin.ENSMALL}
		case "eigen", "eigentri", "Schur":
			allowed = []int{lin.EMAXITER, lin.EARITH}
		}
		return refusedAs(c.Dec+" of an extreme matrix", err, allowed...)
	}
	o.NonTrivial(m > 1)
	sc := SnapCase{Dec: c.Dec, A: c.A, Vec: c.Vec, B: Mat{Rep: "array", R: m, C: 2, Dist: dInt, Seed: 7}, Default: true}
	rs := sc.observe(a, d)
	all, singular := true, false
	for k := range rs {
		r := rs[(k+c.Order)%len(rs)]
		out := r.get()
		if !finiteAll(out) {
			all = false
		}
		if c.Dec == "LU" && r.name == "solver IsNonSingular" && out[0] == 0 {
			singular = true
		}
	}
	if err := matchModel("the matrix after everything was read", a, d); err != nil {
		return err
	}
	seen := bad
	switch c.Dec { // what these decompositions are given to read
	case "tridiagonal":
		seen = false
		for i := range d {
			seen = seen || !finiteAll(d[i][i:])
		}
	case "eigentri":
		x, y := tridiagonalOf(d)
		seen = !finiteAll(x) || !finiteAll(y)
	case "root": // one triangle only
		seen = false
	case "LU": // or called singular
		seen = seen && !singular
	}
	if seen && all {
		return fmt.Errorf("%s accepted a matrix that is not finite and reports nothing but finite numbers", c.Dec)
	}
	o.LabelIf(!all, "reports not finite")
	return nil
}

func finiteDense(d Dense) bool {
	for _, r := range d {
		if !finiteAll(r) {
			return false
		}
	}
	return true
}

var extremes = []float64{math.NaN(), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e300, -1e200, 1e155, 1e154, 1e-160, 1e-200, 1e-310, 5e-324}

func init() {
	Register("C29", "extremes", "order at least 2, or refused", 16000, 300000,
		func(t *rapid.T) EndCase {
			c := EndCase{Dec: oneOf(t, []string{"LU", "QR", "RRQR", "Cholesky", "root", "SVD", "eigen", "eigen", "eigentri", "Hessenberg", "tridiagonal", "bidiagonal", "Schur"}, "dec"),
				Order: pick(t, 32, "order"), Vec: oneOf(t, vecReps, "vec")}
			switch c.Dec {
			case "QR", "RRQR", "SVD", "bidiagonal":
				r, k := genRect(t, 56)
				c.A = genLA(t, r, k, laGeneral, true)
			default:
				n := laDim(t, 56, "n")
				c.A = genLA(t, n, n, laSquare, true)
				c.Sym = pct(t, 50, "sym") || c.Dec == "Cholesky" || c.Dec == "root" || c.Dec == "tridiagonal" || c.Dec == "eigentri"
				c.Both = c.Sym && pct(t, 60, "both")
				if c.Sym && pct(t, 50, "boost") {
					c.Boost = F(10 * float64(n))
				}
			}
			if c.A.Rep == "diag" {
				c.A.Rep = "array"
			}
			n := 1 + pick(t, 3, "spots")
			if pct(t, 5, "all") {
				n = c.A.R * c.A.C
				if n > 30 {
					n = 30
				}
			}
			for i := 0; i < n; i++ {
				c.At = append(c.At, Spot{pick(t, c.A.R, "i"), pick(t, c.A.C, "j"), F(oneOf(t, extremes, "v"))})
			}
			return c
		}, checkEnds)
}
