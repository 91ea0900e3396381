package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// EqCase: a matrix, and how the others differ from it.
type EqCase struct {
	M      Mat      `json:"m"`
	Reps   []string `json:"reps"` // of the second and third
	Change string   `json:"change"`
	I      int      `json:"i"`
	J      int      `json:"j"`
	On2    bool     `json:"on2"` // a further change to the third
}

var eqChanges = []string{"none", "none", "up", "down", "neg", "one", "NaN", "zerosign", "row", "column", "lessrow", "lesscolumn", "transposed", "reshaped", "tiny", "exchange"}

func genEq(t *rapid.T) EqCase {
	r, c := genDim(t, 110, "r"), genDim(t, 110, "c")
	dist := oneOf(t, []string{dInt, dFloat, dTiny, dSpecial}, "dist")
	rep := genRep(t, allReps, "rep")
	if rep == "diag" {
		c = r
	}
	e := EqCase{M: genMat(t, rep, r, c, dist, "m")}
	for k := 0; k < 2; k++ {
		reps := denseReps
		if rep == "diag" {
			reps = allReps
		}
		e.Reps = append(e.Reps, genRep(t, reps, "rep2"))
	}
	e.Change = oneOf(t, eqChanges, "change")
	e.I, e.J = genIdx(t, r, "i"), genIdx(t, c, "j")
	if rep == "diag" && (e.Reps[0] == "diag" || pct(t, 50, "on")) {
		e.J = e.I
	}
	e.On2 = pct(t, 30, "on2")
	return e
}

func changed(x float64, how string) float64 {
	switch how {
	case "up":
		return math.Nextafter(x, math.Inf(1))
	case "down":
		return math.Nextafter(x, math.Inf(-1))
	case "neg":
		return -x
	case "one":
		return x + 1
	case "NaN":
		return math.NaN()
	case "zerosign":
		if x == 0 {
			return -x
		}
		return x
	case "tiny":
		return x + 1e-14*x
	}
	return x
}

// vary is another matrix content made from d.
func (d Dense) vary(how string, i, j int) Dense {
	r, c := d.rows(), d.cols()
	switch how {
	case "row":
		w := newDense(r+1, c)
		for k := range d {
			copy(w[k], d[k])
		}
		return w
	case "column":
		w := newDense(r, c+1)
		for k := range d {
			copy(w[k], d[k])
		}
		return w
	case "lessrow":
		if r > 1 {
			return d.part([4]int{0, r - 2, 0, c - 1})
		}
	case "lesscolumn":
		if c > 1 {
			return d.part([4]int{0, r - 1, 0, c - 2})
		}
	case "transposed":
		return d.t()
	case "reshaped":
		w := newDense(c, r)
		for k := 0; k < r*c; k++ {
			w[k/r][k%r] = d[k/c][k%c]
		}
		return w
	case "exchange":
		w := d.clone()
		i2, j2 := (i+1)%r, (j+1)%c
		w[i][j], w[i2][j2] = w[i2][j2], w[i][j]
		return w
	}
	w := d.clone()
	w[i][j] = changed(w[i][j], how)
	return w
}

func (d Dense) equal(b Dense) bool {
	if d.rows() != b.rows() || d.cols() != b.cols() {
		return false
	}
	for i := range d {
		for j := range d[i] {
			if d[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

// held is a matrix of this content in the representation, or a dense one when
// a diagonal matrix cannot hold it.
func held(rep string, d Dense) (lin.RealMatrix, string) {
	if rep == "diag" && !d.isDiagonal() {
		rep = "array"
	}
	return buildMat(rep, d), rep
}

func checkEq(c EqCase, o *Obs) error {
	a, d := c.M.build()
	d2 := d.vary(c.Change, c.I, c.J)
	d3 := d2
	if c.On2 {
		d3 = d2.vary("one", c.I%d2.rows(), c.J%d2.cols())
	}
	b, rep2 := held(c.Reps[0], d2)
	e, rep3 := held(c.Reps[1], d3)
	ms := []lin.RealMatrix{a, b, e}
	ds := []Dense{d, d2, d3}
	reps := []string{c.M.Rep, rep2, rep3}
	o.Label(c.Change)
	o.NonTrivial(c.M.R*c.M.C > 1)
	o.LabelIf(d.equal(d2), "equal")
	o.LabelIf(!d.equal(d2), "different")
	for i := range ms {
		for j := range ms {
			if i == j {
				if ds[i].equal(ds[i]) && !ms[i].Equals(ms[i]) {
					return fmt.Errorf("a %s matrix is not equal to itself", reps[i])
				}
				continue
			}
			want := ds[i].equal(ds[j])
			if got := ms[i].Equals(ms[j]); got != want {
				return fmt.Errorf("%s %dx%d equals %s %dx%d (%s, at %d,%d): %v, want %v", reps[i], ds[i].rows(), ds[i].cols(), reps[j], ds[j].rows(), ds[j].cols(), c.Change, c.I, c.J, got, want)
			}
		}
		if err := matchModel("a compared matrix", ms[i], ds[i]); err != nil {
			return err
		}
	}
	if got, want := a.Equals(a.Copy()), d.equal(d); got != want {
		return fmt.Errorf("a %s matrix equals its copy: %v, want %v", c.M.Rep, got, want)
	}
	return otherKinds("a "+c.M.Rep+" matrix", a.Equals, ds[0], must(lin.NewArrayRealVector(col(d, 0), true)))
}

type notMatrix struct{ rows, columns int }

func (n *notMatrix) RowDimension() int    { return n.rows }
func (n *notMatrix) ColumnDimension() int { return n.columns }

// otherKinds: nothing else is equal.
func otherKinds(what string, equals func(interface{}) bool, d Dense, x interface{}) error {
	for _, v := range []interface{}{nil, 0, 1.0, "", "matrix", true, []float64{}, col(d, 0), [][]float64(d), d, struct{}{}, &notMatrix{d.rows(), d.cols()}, map[string]int{}, fmt.Errorf("e"), func() {}, x, new(int)} {
		v := v
		var got bool
		if p := attempt(func() { got = equals(v) }); p != nil {
			return fmt.Errorf("%s compared with a %T panics: %v", what, v, p)
		}
		if got {
			return fmt.Errorf("%s equals a %T", what, v)
		}
	}
	return nil
}

// EqVecCase: a vector and how the others differ from it.
type EqVecCase struct {
	V      Vec      `json:"v"`
	Reps   []string `json:"reps"`
	Change string   `json:"change"`
	I      int      `json:"i"`
	NaN    int      `json:"nan"` // NaN at this place of the first (-1 none)
	On2    bool     `json:"on2"`
}

func genEqVec(t *rapid.T) EqVecCase {
	n := genDim(t, 110, "n")
	if pct(t, 4, "empty") {
		n = 0
	}
	e := EqVecCase{V: genVec(t, oneOf(t, vecReps, "rep"), n, oneOf(t, []string{dInt, dFloat, dSpecial}, "dist"), "v"), NaN: -1}
	e.Reps = []string{oneOf(t, vecReps, "rep2"), oneOf(t, vecReps, "rep3")}
	e.Change = oneOf(t, []string{"none", "up", "down", "neg", "one", "NaN", "zerosign", "tiny", "longer", "shorter", "reverse"}, "change")
	if n > 0 {
		e.I = pick(t, n, "i")
		if pct(t, 25, "nan") {
			e.NaN = pick(t, n, "nanat")
		}
	}
	e.On2 = pct(t, 30, "on2")
	return e
}

func varyVec(v []float64, how string, i int) []float64 {
	w := append([]float64{}, v...)
	switch how {
	case "longer":
		return append(w, 0)
	case "shorter":
		if len(w) > 0 {
			return w[:len(w)-1]
		}
	case "reverse":
		for a, b := 0, len(w)-1; a < b; a, b = a+1, b-1 {
			w[a], w[b] = w[b], w[a]
		}
	default:
		if i < len(w) {
			w[i] = changed(w[i], how)
		}
	}
	return w
}

func vecEqual(v, w []float64) bool {
	if len(v) != len(w) {
		return false
	}
	hasNaN := func(x []float64) bool {
		for _, y := range x {
			if y != y {
				return true
			}
		}
		return false
	}
	if hasNaN(v) || hasNaN(w) {
		return hasNaN(v) && hasNaN(w)
	}
	for i := range v {
		if v[i] != w[i] {
			return false
		}
	}
	return true
}

func checkEqVec(c EqVecCase, o *Obs) error {
	v := c.V.vals()
	if c.NaN >= 0 {
		v[c.NaN] = math.NaN()
	}
	v2 := varyVec(v, c.Change, c.I)
	v3 := v2
	if c.On2 && len(v2) > 0 {
		v3 = varyVec(v2, "one", c.I%len(v2))
	}
	vals := [][]float64{v, v2, v3}
	reps := []string{c.V.Rep, c.Reps[0], c.Reps[1]}
	var vs []lin.RealVector
	for i := range vals {
		vs = append(vs, buildVec(reps[i], vals[i]))
	}
	o.NonTrivial(len(v) > 1)
	o.Label(c.Change)
	o.LabelIf(vecEqual(v, v2), "equal")
	o.LabelIf(!vecEqual(v, v2), "different")
	o.LabelIf(c.NaN >= 0, "NaN")
	for i := range vs {
		for j := range vs {
			want := vecEqual(vals[i], vals[j])
			if got := vs[i].Equals(vs[j]); got != want {
				return fmt.Errorf("%s vector %v equals %s vector %v: %v, want %v", reps[i], brief(vals[i]), reps[j], brief(vals[j]), got, want)
			}
		}
		if err := matchVec("a compared vector", vs[i], vals[i]); err != nil {
			return err
		}
	}
	if !vs[0].Equals(vs[0].Copy()) {
		return fmt.Errorf("a vector is not equal to its copy")
	}
	d := newDense(1, 1)
	var x interface{}
	if len(v) > 0 {
		d = fromCol(v)
		x = buildMat("array", d)
	}
	return otherKinds("a "+c.V.Rep+" vector", vs[0].Equals, d, x)
}

// SharedCase: matrices and vectors made without copying from parts of one slice.
type SharedCase struct {
	D []F      `json:"d"`
	W [][4]int `json:"w"` // where each starts, its rows and columns, and how far apart its rows are; a vector where there are no rows
}

func checkShared(c SharedCase, o *Obs) error {
	store := fls(c.D)
	type held struct {
		x interface{ Equals(interface{}) bool }
		d Dense // a vector as one column
		v bool
	}
	var hs []held
	for _, w := range c.W {
		at, r, k, step := w[0], w[1], w[2], w[3]
		if r == 0 {
			s := store[at : at+k : at+k]
			hs = append(hs, held{must(lin.NewArrayRealVector(s, false)), fromCol(s), true})
			continue
		}
		var rows [][]float64
		d := newDense(r, k)
		for i := 0; i < r; i++ {
			rows = append(rows, store[at:at+k:at+k])
			copy(d[i], rows[i])
			at += step
		}
		hs = append(hs, held{must(lin.NewArray2DRowRealMatrixFromSlices(rows, false)), d, false})
	}
	for i, a := range hs {
		for j, b := range hs {
			if i == j && !a.v && !a.d.equal(a.d) {
				continue // the same matrix, with NaN
			}
			want := a.v == b.v && a.d.equal(b.d)
			if a.v && b.v {
				want = vecEqual(col(a.d, 0), col(b.d, 0))
			}
			o.LabelIf(want && i != j, "equal")
			o.LabelIf(!want && i != j, "different")
			o.NonTrivial(i != j)
			if got := a.x.Equals(b.x); got != want {
				return fmt.Errorf("%v equals %v: %v, want %v, both on parts of one slice (%v and %v)", a.d, b.d, got, want, c.W[i], c.W[j])
			}
		}
	}
	return nil
}

func brief(v []float64) []float64 {
	if len(v) > 12 {
		return v[:12]
	}
	return v
}

func init() {
	Register("C27", "matrices", "more than one entry", 40000, 800000, genEq, checkEq)
	Register("C27", "shared-storage", "matrices and vectors built without copying over parts of one slice (the same start with other lengths, shifted, rows apart or the same, NaN inside); non-trivial: two of them", 20000, 400000,
		func(t *rapid.T) SharedCase {
			var c SharedCase
			dist := oneOf(t, []string{dTiny, dTiny, dInt, dSpecial}, "dist")
			for k, n := 0, 2+pick(t, 20, "n"); k < n; k++ {
				c.D = append(c.D, F(genVal(t, dist, "x")))
			}
			first := pick(t, len(c.D), "at")
			for k, n := 0, 2+pick(t, 3, "k"); k < n; k++ {
				w := [4]int{first, 0, 0, 0}
				if pct(t, 30, "elsewhere") {
					w[0] = pick(t, len(c.D), "at2")
				}
				if k > 0 && pct(t, 30, "again") {
					w = c.W[0]
				}
				left := len(c.D) - w[0]
				if w[2] == 0 {
					w[2] = 1 + pick(t, mini(left, 6), "columns")
					if pct(t, 65, "matrix") {
						w[1] = 1 + pick(t, 4, "rows")
					}
				} else if w[1] > 0 && pct(t, 50, "rows2") { // the same rows, more or fewer of them
					w[1] = 1 + pick(t, 4, "rows")
				}
				if w[1] > 1 {
					most := (left - w[2]) / (w[1] - 1)
					if w[3] > 0 && w[3] <= most {
						// as before
					} else if w[3] = pick(t, most+1, "step"); most >= w[2] && pct(t, 50, "packed") {
						w[3] = w[2]
					}
				}
				c.W = append(c.W, w)
			}
			return c
		}, checkShared)
	Register("C27", "vectors", "more than one element", 40000, 1500000, genEqVec, checkEqVec)
}
