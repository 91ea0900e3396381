package main

import (
	"fmt"
	"math"
	"math/big"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// Reference sums in 300-bit arithmetic.
func bigSum(terms func(add func(x, y float64)), n int) float64 {
	s := new(big.Float).SetPrec(300)
	terms(func(x, y float64) {
		p := new(big.Float).SetPrec(300).SetFloat64(x)
		p.Mul(p, new(big.Float).SetPrec(300).SetFloat64(y))
		s.Add(s, p)
	})
	f, _ := s.Float64()
	return f
}

func dotRef(x, y []float64) float64 {
	return bigSum(func(add func(a, b float64)) {
		for i := range x {
			add(x[i], y[i])
		}
	}, len(x))
}

func absDot(x, y []float64) float64 {
	return bigSum(func(add func(a, b float64)) {
		for i := range x {
			add(math.Abs(x[i]), math.Abs(y[i]))
		}
	}, len(x))
}

func norm2Ref(x []float64) float64 { return math.Sqrt(dotRef(x, x)) }

func subv(x, y []float64) []float64 {
	o := make([]float64, len(x))
	for i := range x {
		o[i] = x[i] - y[i]
	}
	return o
}

func close_(what string, got, want, tol float64) error {
	if !(math.Abs(got-want) <= tol) {
		return fmt.Errorf("%s is %v, want %v (tolerance %.3g)", what, got, want, tol)
	}
	return nil
}

type MetricCase struct {
	U, V, W Vec
	Self    bool
	K       int // power of two for the scaling law
	S       int `json:",omitempty"` // power of two all three are scaled by (integers only)
}

func genMetric(t *rapid.T) MetricCase {
	n := genDim(t, 80, "n")
	s := oneOf(t, []int{0, 0, 0, 0, 0, 0, -500, 450}, "s")
	d := func(l string) string {
		if s != 0 {
			return oneOf(t, []string{dInt, dTiny}, l)
		}
		return oneOf(t, []string{dInt, dTiny, dFloat, dWide}, l)
	}
	return MetricCase{genVec(t, genRep(t, vecReps, "ru"), n, d("du"), "u"), genVec(t, genRep(t, vecReps, "rv"), n, d("dv"), "v"),
		genVec(t, genRep(t, vecReps, "rw"), n, d("dw"), "w"), pct(t, 10, "self"), pick(t, 60, "k") - 30, s}
}

func checkMetrics(c MetricCase, o *Obs) error {
	scaled := func(x Vec) (lin.RealVector, []float64) {
		d := x.vals()
		for i := range d {
			d[i] = math.Ldexp(d[i], c.S)
		}
		return buildVec(x.Rep, d), d
	}
	u, du := scaled(c.U)
	v, dv := scaled(c.V)
	w, dw := scaled(c.W)
	if c.Self {
		v, dv = u, du
	}
	n := float64(len(du) + 4)
	tol := n * eps
	o.NonTrivial(nonzero(du) && nonzero(dv) && len(du) > 1)
	o.LabelIf(!nonzero(du) || !nonzero(dv), "zero-vector")
	linf, l1 := 0.0, 0.0
	for _, x := range du {
		linf = math.Max(linf, math.Abs(x))
		l1 += math.Abs(x)
	}
	n2 := norm2Ref(du)
	diff := subv(du, dv)
	d2 := norm2Ref(diff)
	dinf, d1 := 0.0, 0.0
	for _, x := range diff {
		dinf = math.Max(dinf, math.Abs(x))
		d1 += math.Abs(x)
	}
	dot, adot := dotRef(du, dv), absDot(du, dv)
	for _, e := range []error{
		close_("VecNorm", lin.VecNorm(u), n2, tol*n2),
		close_("VecL1Norm", lin.VecL1Norm(u), l1, 2*tol*l1),
		close_("VecLInfNorm", lin.VecLInfNorm(u), linf, 0),
		close_("VecDistance", lin.VecDistance(u, v), d2, 2*tol*d2),
		close_("VecL1Distance", lin.VecL1Distance(u, v), d1, 2*tol*d1),
		close_("VecLInfDistance", lin.VecLInfDistance(u, v), dinf, 0),
		close_("VecDotProduct", lin.VecDotProduct(u, v), dot, 2*tol*adot),
		// axioms
		close_("symmetry of VecDistance", lin.VecDistance(v, u), d2, 2*tol*d2),
		close_("symmetry of VecL1Distance", lin.VecL1Distance(v, u), d1, 2*tol*d1),
		close_("symmetry of VecLInfDistance", lin.VecLInfDistance(v, u), dinf, 0),
		close_("symmetry of VecDotProduct", lin.VecDotProduct(v, u), dot, 2*tol*adot),
		close_("VecDistance of a vector from itself", lin.VecDistance(u, u), 0, 0),
		close_("VecL1Distance of a vector from itself", lin.VecL1Distance(u, u), 0, 0),
		close_("VecLInfDistance of a vector from itself", lin.VecLInfDistance(u, u), 0, 0),
	} {
		if e != nil {
			return e
		}
	}
	type dist func(a, b lin.RealVector) float64
	for name, f := range map[string]dist{"VecDistance": lin.VecDistance, "VecL1Distance": lin.VecL1Distance, "VecLInfDistance": lin.VecLInfDistance} {
		a, b, ab := f(u, v), f(v, w), f(u, w)
		if !(ab <= (a+b)*(1+4*tol)) {
			return fmt.Errorf("%s breaks the triangle inequality: %v > %v + %v", name, ab, a, b)
		}
	}
	s := math.Ldexp(1, c.K)
	su := u.Copy()
	su.MapMultiply(-s)
	for name, f := range map[string]func(lin.RealVector) float64{"VecNorm": lin.VecNorm, "VecL1Norm": lin.VecL1Norm, "VecLInfNorm": lin.VecLInfNorm} {
		if e := close_(fmt.Sprintf("%s of %v times the vector", name, -s), f(su), s*f(u), tol*s*f(u)); e != nil {
			return e
		}
	}
	// directions
	zu, zv := !nonzero(du), !nonzero(dv)
	var cos float64
	p := attempt(func() { cos = lin.VecCosine(u, v) })
	if err := refusedIff("VecCosine", p, zu || zv, lin.EARITH); err != nil {
		return err
	}
	if p == nil {
		nv := norm2Ref(dv)
		if e := close_("VecCosine", cos, dot/(n2*nv), 4*tol*adot/(n2*nv)); e != nil {
			return e
		}
	}
	var pr lin.RealVector
	p = attempt(func() { pr = lin.Projection(u, v) })
	if err := refusedIff("Projection", p, zv, lin.EARITH); err != nil {
		return err
	}
	if p == nil {
		vv := dotRef(dv, dv)
		res := make([]float64, len(du))
		for i := range dv {
			if e := close_(fmt.Sprintf("element %d of the projection", i), pr.At(i), dot/vv*dv[i], 6*tol*adot/vv*math.Abs(dv[i])); e != nil {
				return e
			}
			res[i] = du[i] - pr.At(i)
		}
		if r := math.Abs(dotRef(res, dv)); !(r <= 20*tol*n2*norm2Ref(dv)) {
			return fmt.Errorf("what Projection leaves is not orthogonal to the target: %v", r)
		}
	}
	for _, e := range []error{matchVec("vector after metrics", u, du), matchVec("vector after metrics", v, dv), matchVec("vector after metrics", w, dw)} {
		if e != nil {
			return e
		}
	}
	var un lin.RealVector
	p = attempt(func() { un = lin.UnitVector(u) })
	if err := refusedIff("UnitVector", p, zu, lin.EARITH); err != nil {
		return err
	}
	if err := matchVec("the vector UnitVector was given", u, du); err != nil {
		return err
	}
	p2 := attempt(func() { u.Unitize() })
	if err := refusedIff("Unitize", p2, zu, lin.EARITH); err != nil {
		return err
	}
	if zu {
		return matchVec("the vector Unitize refused", u, du)
	}
	for i := range du {
		for name, x := range map[string]lin.RealVector{"UnitVector": un, "Unitize": u} {
			if e := close_(fmt.Sprintf("element %d after %s", i, name), x.At(i), du[i]/n2, 2*tol*math.Abs(du[i])/n2); e != nil {
				return e
			}
		}
	}
	return nil
}

// refusedIff: p is what the call panicked with.
func refusedIff(what string, p interface{}, refuse bool, status int) error {
	if !refuse {
		if p != nil {
			return fmt.Errorf("%s was refused on valid input: %v", what, p)
		}
		return nil
	}
	if p == nil {
		return fmt.Errorf("%s accepted input it must refuse", what)
	}
	st, ok := rejection(p)
	if !ok {
		return fmt.Errorf("%s crashed instead of refusing: %v", what, p)
	}
	if st != status {
		return fmt.Errorf("%s was refused with status %d (%v), want %d", what, st, p, status)
	}
	return nil
}

type ExtremaCase struct{ V Vec }

func checkExtrema(c ExtremaCase, o *Obs) error {
	v, d := c.V.build()
	lo, hi := math.Inf(1), math.Inf(-1)
	any := false
	for _, x := range d {
		if !math.IsNaN(x) {
			any = true
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
	}
	o.NonTrivial(len(d) > 1)
	o.LabelIf(!any, "nothing-to-compare")
	mi, mx := lin.MinIndex(v), lin.MaxIndex(v)
	vi, vx := lin.MinValue(v), lin.MaxValue(v)
	if !any {
		if mi != -1 || mx != -1 || !math.IsNaN(vi) || !math.IsNaN(vx) {
			return fmt.Errorf("extrema of a vector without numbers: indices %d %d values %v %v, want -1 and NaN", mi, mx, vi, vx)
		}
		return nil
	}
	if vi != lo || vx != hi {
		return fmt.Errorf("extrema values %v %v, want %v %v", vi, vx, lo, hi)
	}
	for _, k := range []int{mi, mx} {
		if k < 0 || k >= len(d) {
			return fmt.Errorf("extremum index %d of %d elements", k, len(d))
		}
	}
	if d[mi] != lo || d[mx] != hi {
		return fmt.Errorf("index of the minimum %d has %v (minimum %v), of the maximum %d has %v (maximum %v)", mi, d[mi], lo, mx, d[mx], hi)
	}
	return matchVec("the vector", v, d)
}

// NonfiniteMetricCase: small integers with NaN and infinities among them.
type NonfiniteMetricCase struct {
	U, V Vec
	M    Mat
}

// plantSpecials puts NaN and infinities at some places; kind 0 only
// infinities, 1 only NaN, 2 both.
func plantSpecials(t *rapid.T, d []F, kind int, label string) {
	if len(d) == 0 {
		return
	}
	for k := 1 + pick(t, 3, label+"n"); k > 0; k-- {
		at := pick(t, len(d), label+"at")
		switch {
		case kind == 1 || kind == 2 && pct(t, 50, label+"k"):
			d[at] = F(math.NaN())
		case pct(t, 50, label+"s"):
			d[at] = F(math.Inf(1))
		default:
			d[at] = F(math.Inf(-1))
		}
	}
}

func explicit(rep string, n int, t *rapid.T, label string) Vec {
	v := Vec{Rep: rep, N: n}
	v.D = make([]F, n)
	for i := range v.D {
		v.D[i] = F(pick(t, 5, label) - 2)
	}
	return v
}

func genNonfiniteMetric(t *rapid.T) NonfiniteMetricCase {
	n := 1 + pick(t, 9, "n")
	c := NonfiniteMetricCase{U: explicit(genRep(t, vecReps, "ru"), n, t, "u"), V: explicit(genRep(t, vecReps, "rv"), n, t, "v")}
	plantSpecials(t, c.U.D, pick(t, 3, "ku"), "pu")
	if pct(t, 50, "both") {
		plantSpecials(t, c.V.D, pick(t, 3, "kv"), "pv")
	}
	r, k := genDim(t, 70, "r"), genDim(t, 70, "c")
	c.M = Mat{Rep: genRep(t, denseReps, "rep"), R: r, C: k, D: make([]F, r*k)}
	r1 := &splitmix{uint64(pick(t, 1<<30, "seed"))}
	for i := range c.M.D {
		c.M.D[i] = F(r1.sym(2))
	}
	plantSpecials(t, c.M.D, pick(t, 3, "km"), "pm")
	return c
}

// hasSpecial tells of NaN and of infinities.
func hasSpecial(x []float64) (nan, inf bool) {
	for _, v := range x {
		nan = nan || math.IsNaN(v)
		inf = inf || math.IsInf(v, 0)
	}
	return
}

// extended is the norm of something holding NaN or infinities: +Inf or NaN,
// never a number; +Inf when no NaN takes part.
func extended(what string, got float64, nan, inf bool) error {
	switch {
	case nan && !math.IsNaN(got) && !(inf && math.IsInf(got, 1)):
		return fmt.Errorf("%s is %v though a NaN takes part", what, got)
	case !nan && inf && !math.IsInf(got, 1):
		return fmt.Errorf("%s is %v though an infinity takes part", what, got)
	}
	return nil
}

func checkNonfiniteMetrics(c NonfiniteMetricCase, o *Obs) error {
	u, du := c.U.build()
	v, dv := c.V.build()
	m, dm := c.M.build()
	o.NonTrivial(len(du) > 1)
	nan, inf := hasSpecial(du)
	o.Labelf("nan=%v inf=%v", nan, inf)
	dn, di := hasSpecial(subv(du, dv))
	flat := make([]float64, 0, c.M.R*c.M.C)
	for _, row := range dm {
		flat = append(flat, row...)
	}
	mn, mi := hasSpecial(flat)
	terms := make([]float64, len(du))
	sum := 0.0
	for i := range du {
		terms[i] = du[i] * dv[i]
		sum += terms[i]
	}
	for _, e := range []error{
		extended("VecNorm", lin.VecNorm(u), nan, inf),
		extended("VecL1Norm", lin.VecL1Norm(u), nan, inf),
		extended("VecLInfNorm", lin.VecLInfNorm(u), nan, inf),
		extended("VecDistance", lin.VecDistance(u, v), dn, di),
		extended("VecL1Distance", lin.VecL1Distance(u, v), dn, di),
		extended("VecLInfDistance", lin.VecLInfDistance(u, v), dn, di),
		extended("VecDistance the other way", lin.VecDistance(v, u), dn, di),
		extended("VecL1Distance the other way", lin.VecL1Distance(v, u), dn, di),
		extended("VecLInfDistance the other way", lin.VecLInfDistance(v, u), dn, di),
		extended("MatFrobeniusNorm", lin.MatFrobeniusNorm(m), mn, mi),
		extended("MatLInfNorm", lin.MatLInfNorm(m), mn, mi),
	} {
		if e != nil {
			return e
		}
	}
	// small integers otherwise: the dot product is the IEEE sum in any order
	if got := lin.VecDotProduct(u, v); !same(got, sum) {
		return fmt.Errorf("VecDotProduct is %v, want %v", got, sum)
	}
	if e := matchVec("vector after metrics", u, du); e != nil {
		return e
	}
	return matchVec("vector after metrics", v, dv)
}

func init() {
	Register("C09", "nonfinite", "norms and distances of vectors, and norms of matrices, of small integers with NaN and infinities at random places: the result is never a number, and +Inf when no NaN takes part; the dot product is the IEEE sum; non-trivial: more than one element",
		15000, 300000, genNonfiniteMetric, checkNonfiniteMetrics)
	Register("C09", "metrics", "norms, distances, dot product, cosine, projection and unit vectors of random vectors (several magnitudes, zero vectors included) against 300-bit reference sums, and the axioms: symmetry, triangle inequality, scaling by powers of two, orthogonality of the residual, refusal of zero vectors; non-trivial: nonzero vectors of more than one element",
		20000, 400000, genMetric, checkMetrics)
	Register("C09", "extrema", "minimum and maximum, value and index, of vectors with ties, signed zeros, infinities, NaN and of empty vectors; non-trivial: more than one element",
		20000, 400000,
		func(t *rapid.T) ExtremaCase {
			n := genDim(t, 30, "n") - 1
			v := genVec(t, genRep(t, vecReps, "rep"), n, oneOf(t, []string{dInt, dTiny, dSpecial, dFloat}, "dist"), "v")
			if v.D != nil && pct(t, 25, "nan") {
				for i := range v.D {
					if pct(t, 70, "isnan") {
						v.D[i] = F(math.NaN())
					}
				}
			}
			return ExtremaCase{v}
		}, checkExtrema)
}
