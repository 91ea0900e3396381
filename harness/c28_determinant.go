package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// DetLawCase: the determinant of A and of what a law makes of it.
type DetLawCase struct {
	A   LA     `json:"a"`
	S   *Sym   `json:"s,omitempty"`
	B   LA     `json:"b"` // for the product law
	Law string `json:"law"`
	I   int    `json:"i"`
	J   int    `json:"j"`
	X   F      `json:"x"`
}

type detOf struct {
	name string
	x    float64
}

// determinants of a matrix, from everything that offers one.
func determinants(a lin.RealMatrix, d Dense, symmetric, definite bool) []detOf {
	scale := d.maxAbs()
	l := []detOf{{"LU", must(lin.NewLUDecompositionWithThreshold(a, 1e-290+1e-250*scale)).Determinant()}}
	l = append(l, detOf{"eigen", must(lin.NewEigenDecomposition(a)).Determinant()})
	if symmetric && definite {
		l = append(l, detOf{"Cholesky", must(lin.NewCholeskyDecomposition(a, 1e-15, 1e-280)).Determinant()})
	}
	return l
}

// detTol is what rounding can do to a determinant: to first order n*eps*kappa of
// it, and never more than that part of the product of the row norms.
func detTol(d Dense, det float64) float64 {
	n := float64(len(d))
	c := 8 * (n + 2) * (n + 2) * eps
	worst := 1.0
	f := d.fro() / math.Sqrt(n)
	for range d {
		worst *= f
	}
	worst *= c * math.Pow(2, math.Min(n, 8))
	if _, kappa := invRef(d); kappa < 1e10 {
		return math.Min(worst, c*kappa*math.Abs(det)) + 1e-250
	}
	return worst + 1e-250
}

func inRange(d Dense) bool {
	e := math.Log2(d.maxAbs()+1e-300) * float64(len(d))
	return e > -700 && e < 700
}

func checkDetLaw(c DetLawCase, o *Obs) error {
	var a lin.RealMatrix
	var d Dense
	kind, definite := c.A.Kind, false
	if c.S != nil {
		a, d = c.S.build()
		kind = "sym " + c.S.Kind
		switch c.S.Kind {
		case "known+", "gram", "identity", "posdiag", "ldl":
			definite = true
		}
	} else {
		a, d = c.A.build()
	}
	n := len(d)
	o.Label(kind)
	o.Label(c.Law)
	if d.maxAbs() == 0 || !inRange(d) {
		o.Label("zero or out of range")
		return nil
	}
	o.NonTrivial(n > 1)
	sym := c.S != nil
	want := exactDet(d)
	tol := detTol(d, want)
	o.LabelIf(want == 0, "singular")
	o.LabelIf(math.Abs(want) > 4*tol, "sign decided")
	for _, x := range determinants(a, d, sym, definite) {
		track("det "+x.name, math.Abs(x.x-want)/tol)
		if !(math.Abs(x.x-want) <= tol) {
			return fmt.Errorf("%s: determinant %v, exactly %v (tolerance %.3g)", x.name, x.x, want, tol)
		}
	}
	// the law
	e, factor := d.clone(), 1.0
	i, j := c.I%n, c.J%n
	switch c.Law {
	case "transpose":
		e = d.t()
	case "swap":
		if i == j {
			j = (i + 1) % n
		}
		e[i], e[j] = e[j], e[i]
		if i != j {
			factor = -1
		}
	case "scale":
		for k := range e[i] {
			e[i][k] *= float64(c.X)
		}
		factor = float64(c.X)
	case "add": // a multiple of one row to another
		if i == j {
			j = (i + 1) % n
		}
		if i != j {
			for k := range e[i] {
				e[i][k] += float64(c.X) * d[j][k]
			}
		}
	case "cycle": // rows moved round by one
		for k := range e {
			e[k] = d[(k+1)%n]
		}
		if n%2 == 0 {
			factor = -1
		}
	case "product":
		b := c.B.dense()
		if b.maxAbs() == 0 || !inRange(b) {
			return nil
		}
		e = toDense(buildMat(c.A.Rep, d).Multiply(buildMat(c.B.Rep, b)))
		factor = exactDet(b)
	case "power":
		e = toDense(lin.Power(buildMat("array", d), 2))
		factor = want
	case "border": // one more row and column, with a single entry
		e = newDense(n+1, n+1)
		for r := range e {
			for s := range e {
				switch {
				case r < i && s < j:
					e[r][s] = d[r][s]
				case r > i && s < j:
					e[r][s] = d[r-1][s]
				case r < i && s > j:
					e[r][s] = d[r][s-1]
				case r > i && s > j:
					e[r][s] = d[r-1][s-1]
				case r == i && s == j:
					e[r][s] = float64(c.X)
				}
			}
		}
		factor = float64(c.X)
		if (i+j)%2 == 1 {
			factor = -factor
		}
	default:
		hbug("law %q", c.Law)
	}
	if e.maxAbs() == 0 || !inRange(e) {
		return nil
	}
	target := factor * want
	tol2 := detTol(e, target) + math.Abs(factor)*tol
	if c.Law == "product" || c.Law == "power" || c.Law == "add" {
		// the entries of the transformed matrix are rounded
		tol2 *= 4
		if exactDet(e) != target {
			f := d.fro()
			if c.Law == "product" {
				f = c.B.dense().fro()
			}
			worst := 1.0
			g := d.fro() * math.Max(f, 1)
			if c.Law == "add" {
				g = d.fro() * (1 + math.Abs(float64(c.X)))
			}
			for range d {
				worst *= g / math.Sqrt(float64(n))
			}
			w := 16 * float64(n*n) * eps * worst * math.Pow(2, math.Min(float64(n), 8))
			_, ka := invRef(e)
			if ka < 1e8 {
				w = math.Min(w, 16*float64(n*n)*eps*math.Abs(target)*ka*g/e.fro())
			}
			tol2 += w
		}
	}
	for _, x := range determinants(buildMat(c.A.Rep2(), e), e, false, false) {
		track("law "+x.name, math.Abs(x.x-target)/tol2)
		if !(math.Abs(x.x-target) <= tol2) {
			return fmt.Errorf("%s: determinant %v after %s, want %v (tolerance %.3g)", x.name, x.x, c.Law, target, tol2)
		}
	}
	return nil
}

// Rep2: a diagonal matrix does not stay one under the laws.
func (a LA) Rep2() string {
	if a.Rep == "diag" || a.Rep == "" {
		return "array"
	}
	return a.Rep
}

// Triangular matrices: the product of the diagonal.
type TriangularCase struct {
	N     int    `json:"n"`
	Upper bool   `json:"upper"`
	Seed  uint64 `json:"seed"`
	Rep   string `json:"rep"`
	Zero  int    `json:"zero"` // over N: no zero on the diagonal
}

func checkTriangularDet(c TriangularCase, o *Obs) error {
	r := &splitmix{c.Seed}
	d := newDense(c.N, c.N)
	want := 1.0
	for i := range d {
		for j := range d {
			if i == j {
				d[i][i] = math.Ldexp(float64(1-2*r.intn(2)), r.sym(3))
				if i == c.Zero {
					d[i][i] = 0
				}
				want *= d[i][i]
			} else if (j > i) == c.Upper {
				d[i][j] = float64(r.sym(2)) * 0.5
			}
		}
	}
	o.NonTrivial(c.N > 1)
	o.LabelIf(want == 0, "singular")
	if want == 0 {
		want = 0
	}
	a := buildMat(c.Rep, d)
	if c.Upper { // elimination has nothing to do: the product of the diagonal as it stands
		if got := must(lin.NewLUDecompositionWithThreshold(a, 1e-200)).Determinant(); got != want {
			return fmt.Errorf("LU: determinant %v of a triangular matrix, want %v", got, want)
		}
	}
	for _, x := range determinants(a, d, false, false) {
		if err := close_(x.name+": determinant of a triangular matrix", x.x, want, detTol(d, want)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	laws := []string{"transpose", "swap", "scale", "add", "cycle", "product", "product", "power", "border"}
	Register("C28", "laws", "order at least 2, not zero", 30000, 500000,
		func(t *rapid.T) DetLawCase {
			c := DetLawCase{Law: oneOf(t, laws, "law"), I: pick(t, 12, "i"), J: pick(t, 12, "j"), X: F(oneOf(t, []float64{2, -1, 0.5, 3, -0.75, 0, 16}, "x"))}
			n := 1 + pick(t, 10, "n")
			if pct(t, 8, "big") {
				n = 11 + pick(t, 10, "nn")
			}
			if pct(t, 35, "sym") {
				s := genSym(t, n, []string{"explicit", "int", "tiny", "float", "identity", "ones", "diag", "tridiag", "known", "known+", "known+", "repeated", "gram", "ldl", "posdiag", "psdrank", "anti", "arrow"}, []int{0, 0, 3, -3})
				if s.Kind == "ldl" || s.Kind == "gram" {
					s.K = 0
				}
				c.S = &s
				n = s.N
				c.A.Rep = "block"
			} else {
				c.A = genLA(t, n, n, without(without(laEigen, "fleck"), "hilbert"), false)
				c.A.E = oneOf(t, []int{0, 0, 5, -5, 20, -20}, "scale")
			}
			if c.Law == "product" {
				c.B = genLA(t, n, n, []string{"int", "tiny", "float", "perm", "upper", "lower", "orth", "cyclic", "companion", "rank", "blocks"}, false)
			}
			return c
		}, checkDetLaw)
	Register("C28", "triangular", "order at least 2", 6000, 60000,
		func(t *rapid.T) TriangularCase {
			n := 1 + pick(t, 12, "n")
			c := TriangularCase{N: n, Upper: pct(t, 50, "upper"), Seed: uint64(pick(t, 1<<20, "seed")), Rep: genRep(t, denseReps, "rep"), Zero: 99}
			if pct(t, 20, "zero") {
				c.Zero = pick(t, n, "where")
			}
			return c
		}, checkTriangularDet)
}
