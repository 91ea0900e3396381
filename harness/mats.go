package main

// Serialisable cases, generators and conversion to library objects.

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// F is a float64 that survives JSON (NaN, infinities, negative zero).
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	v := float64(f)
	switch {
	case math.IsNaN(v):
		return []byte(`"NaN"`), nil
	case math.IsInf(v, 1):
		return []byte(`"+Inf"`), nil
	case math.IsInf(v, -1):
		return []byte(`"-Inf"`), nil
	case v == 0 && math.Signbit(v):
		return []byte(`"-0"`), nil
	}
	return strconv.AppendFloat(nil, v, 'g', -1, 64), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	var s string
	if len(b) > 0 && b[0] == '"' {
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
	} else {
		s = string(b)
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(v, 0) {
		return err
	}
	*f = F(v)
	return nil
}

func fls(v []F) []float64 {
	out := make([]float64, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}

// splitmix64: expands a drawn seed into the entries of a large matrix.
type splitmix struct{ s uint64 }

func (r *splitmix) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *splitmix) unit() float64  { return float64(r.next()>>11) / (1 << 53) }
func (r *splitmix) intn(n int) int { return int(r.next() % uint64(n)) }
func (r *splitmix) norm() float64  { return (r.unit() + r.unit() + r.unit() + r.unit() - 2) * 1.7 }
func (r *splitmix) sym(n int) int  { return r.intn(2*n+1) - n }

// Dist names how entries are made.
//
//	int    small integers -9..9 (sums and products exact in any order)
//	tiny   integers -2..2, many zeros
//	float  about N(0,1)
//	wide   magnitudes 1e-8..1e8
//	special NaN, infinities, signed zeros, subnormals, extremes mixed with ints
const (
	dInt     = "int"
	dTiny    = "tiny"
	dFloat   = "float"
	dWide    = "wide"
	dSpecial = "special"
)

var specials = []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64,
	-math.SmallestNonzeroFloat64, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, 1 + 0x1p-52, 1 - 0x1p-53, 1e-200, -1e200, 0.1, 1.0 / 3}

func expand(r *splitmix, dist string) float64 {
	switch dist {
	case dInt:
		return float64(r.sym(9))
	case dTiny:
		if r.intn(3) == 0 {
			return float64(r.sym(2))
		}
		return 0
	case dFloat:
		return r.norm()
	case dWide:
		return r.norm() * math.Pow(10, float64(r.sym(8)))
	case dSpecial:
		if r.intn(3) == 0 {
			return specials[r.intn(len(specials))]
		}
		return float64(r.sym(9))
	}
	hbug("dist %q", dist)
	return 0
}

func genVal(t *rapid.T, dist, label string) float64 {
	switch dist {
	case dInt:
		return float64(rapid.IntRange(-9, 9).Draw(t, label))
	case dTiny:
		return float64(oneOf(t, []int{0, 0, 0, 1, -1, 2, -2}, label))
	case dFloat:
		return float64(pick(t, 1<<16, label)-1<<15) / 10007
	case dWide:
		e := rapid.IntRange(-8, 8).Draw(t, label+"e")
		return float64(pick(t, 1<<16, label)-1<<15) / 10007 * math.Pow(10, float64(e))
	case dSpecial:
		if pick(t, 3, label+"k") == 2 {
			return oneOf(t, specials, label)
		}
		return float64(rapid.IntRange(-9, 9).Draw(t, label))
	}
	hbug("dist %q", dist)
	return 0
}

// Mat describes a matrix: representation, dimensions and content.
type Mat struct {
	Rep  string `json:"rep"` // array, arrayref, block, diag, custom, customblock
	R    int    `json:"r"`
	C    int    `json:"c"`
	Dist string `json:"dist,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	D    []F    `json:"d,omitempty"` // row major, when explicit; for diag: the diagonal
}

const explicitMax = 40

// Dense is the reference model of a matrix.
type Dense [][]float64

func newDense(r, c int) Dense {
	flat := make([]float64, r*c)
	d := make(Dense, r)
	for i := range d {
		d[i] = flat[i*c : (i+1)*c : (i+1)*c]
	}
	return d
}
func (d Dense) rows() int { return len(d) }
func (d Dense) cols() int {
	if len(d) == 0 {
		return 0
	}
	return len(d[0])
}
func (d Dense) clone() Dense {
	o := newDense(d.rows(), d.cols())
	for i := range d {
		copy(o[i], d[i])
	}
	return o
}

func (m Mat) dense() Dense {
	d := newDense(m.R, m.C)
	if m.Rep == "diag" {
		var r splitmix
		r.s = m.Seed
		for i := 0; i < m.R; i++ {
			if m.D != nil {
				d[i][i] = float64(m.D[i])
			} else {
				d[i][i] = expand(&r, m.Dist)
			}
		}
		return d
	}
	if m.D != nil {
		for i := range d {
			for j := range d[i] {
				d[i][j] = float64(m.D[i*m.C+j])
			}
		}
		return d
	}
	r := splitmix{m.Seed}
	for i := range d {
		for j := range d[i] {
			d[i][j] = expand(&r, m.Dist)
		}
	}
	return d
}

// customMatrix is a foreign implementation of RealMatrix: same behaviour,
// different dynamic type, so type-specialised paths do not apply to it.
type customMatrix struct{ lin.RealMatrix }
type customVector struct{ lin.RealVector }

func must[T any](v T, err error) T {
	if err != nil {
		panic(fmt.Sprintf("constructor failed on valid input: %v", err))
	}
	return v
}

func buildMat(rep string, d Dense) lin.RealMatrix {
	switch rep {
	case "array":
		return must(lin.NewArray2DRowRealMatrixFromSlices(d, true))
	case "arrayref":
		return must(lin.NewArray2DRowRealMatrixFromSlices(d.clone(), false))
	case "block":
		return must(lin.NewBlockRealMatrixFromSlices(d))
	case "default":
		return must(lin.NewRealMatrixFromSlices(d))
	case "custom":
		return customMatrix{must(lin.NewArray2DRowRealMatrixFromSlices(d, true))}
	case "customblock":
		return customMatrix{must(lin.NewBlockRealMatrixFromSlices(d))}
	case "diag":
		v := make([]float64, d.rows())
		for i := range v {
			v[i] = d[i][i]
		}
		return must(lin.NewDiagonalMatrix(v, true))
	}
	hbug("rep %q", rep)
	return nil
}

func (m Mat) build() (lin.RealMatrix, Dense) {
	d := m.dense()
	return buildMat(m.Rep, d), d
}

func buildVec(rep string, v []float64) lin.RealVector {
	switch rep {
	case "array":
		return must(lin.NewArrayRealVector(v, true))
	case "custom":
		return customVector{must(lin.NewArrayRealVector(v, true))}
	}
	hbug("vector rep %q", rep)
	return nil
}

// Vec describes a vector.
type Vec struct {
	Rep  string `json:"rep"`
	N    int    `json:"n"`
	Dist string `json:"dist,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	D    []F    `json:"d,omitempty"`
}

func (v Vec) vals() []float64 {
	if v.D != nil {
		return fls(v.D)
	}
	out := make([]float64, v.N)
	r := splitmix{v.Seed}
	for i := range out {
		out[i] = expand(&r, v.Dist)
	}
	return out
}
func (v Vec) build() (lin.RealVector, []float64) {
	d := v.vals()
	return buildVec(v.Rep, d), d
}

// boundary sizes around the storage block edge (52) and its multiples, and
// around the factories' switch between representations (64x64).
var edgeSizes = []int{51, 52, 53, 63, 64, 65, 103, 104, 105, 156, 157}

// pick draws 0..n-1 without rapid's bias towards small values (it draws single
// bits); it still shrinks to 0.
func pick(t *rapid.T, n int, label string) int {
	bits := 3
	for 1<<bits < 8*n {
		bits++
	}
	v := 0
	b := rapid.Bool()
	for i := 0; i < bits; i++ {
		v <<= 1
		if b.Draw(t, label) {
			v |= 1
		}
	}
	return v % n
}

func oneOf[T any](t *rapid.T, xs []T, label string) T { return xs[pick(t, len(xs), label)] }

// pct is true in about p percent of the cases.
func pct(t *rapid.T, p int, label string) bool { return pick(t, 100, label) >= 100-p }

// genDim draws a dimension 1..max, mostly small, sometimes at a block edge.
func genDim(t *rapid.T, max int, label string) int {
	k := pick(t, 100, label+"K")
	if max > 50 && k >= 72 {
		var e []int
		for _, s := range edgeSizes {
			if s <= max {
				e = append(e, s)
			}
		}
		if k < 94 && len(e) > 0 {
			return oneOf(t, e, label+"E")
		}
		return 1 + pick(t, max, label+"L")
	}
	hi := 6
	if max < hi {
		hi = max
	}
	return 1 + pick(t, hi, label)
}

func genRep(t *rapid.T, reps []string, label string) string {
	return oneOf(t, reps, label)
}

var denseReps = []string{"array", "arrayref", "block", "custom", "customblock"}
var allReps = []string{"array", "arrayref", "block", "custom", "customblock", "diag"}

// genMat draws a matrix of given dimensions and representation.
func genMat(t *rapid.T, rep string, r, c int, dist, label string) Mat {
	m := Mat{Rep: rep, R: r, C: c}
	n := r * c
	if rep == "diag" {
		n = r
	}
	if n <= explicitMax {
		m.D = make([]F, n)
		for i := range m.D {
			m.D[i] = F(genVal(t, dist, label))
		}
	} else {
		m.Dist = dist
		m.Seed = uint64(pick(t, 1<<20, label+"Seed"))
	}
	return m
}

func genVec(t *rapid.T, rep string, n int, dist, label string) Vec {
	v := Vec{Rep: rep, N: n}
	if n <= explicitMax {
		v.D = make([]F, n)
		for i := range v.D {
			v.D[i] = F(genVal(t, dist, label))
		}
	} else {
		v.Dist = dist
		v.Seed = uint64(pick(t, 1<<20, label+"Seed"))
	}
	return v
}

var vecReps = []string{"array", "array", "custom"}

// ---- reference operations ---------------------------------------------------

func same(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

// matchModel compares a library matrix, entry by entry through At, with the model.
func matchModel(what string, m lin.RealMatrix, d Dense) error {
	if m == nil {
		return fmt.Errorf("%s: nil matrix", what)
	}
	if m.RowDimension() != d.rows() || m.ColumnDimension() != d.cols() {
		return fmt.Errorf("%s: is %dx%d, want %dx%d", what, m.RowDimension(), m.ColumnDimension(), d.rows(), d.cols())
	}
	for i := range d {
		for j := range d[i] {
			if got := m.At(i, j); !same(got, d[i][j]) {
				return fmt.Errorf("%s: entry (%d,%d) of %dx%d is %v, want %v", what, i, j, d.rows(), d.cols(), got, d[i][j])
			}
		}
	}
	return nil
}

func matchSlice(what string, got, want []float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range want {
		if !same(got[i], want[i]) {
			return fmt.Errorf("%s: element %d of %d is %v, want %v", what, i, len(want), got[i], want[i])
		}
	}
	return nil
}

func matchVec(what string, v lin.RealVector, want []float64) error {
	if v == nil {
		return fmt.Errorf("%s: nil vector", what)
	}
	if v.Dimension() != len(want) {
		return fmt.Errorf("%s: dimension %d, want %d", what, v.Dimension(), len(want))
	}
	for i := range want {
		if got := v.At(i); !same(got, want[i]) {
			return fmt.Errorf("%s: element %d of %d is %v, want %v", what, i, len(want), got, want[i])
		}
	}
	return nil
}

func toDense(m lin.RealMatrix) Dense {
	d := newDense(m.RowDimension(), m.ColumnDimension())
	for i := range d {
		for j := range d[i] {
			d[i][j] = m.At(i, j)
		}
	}
	return d
}

func toSlice(v lin.RealVector) []float64 {
	out := make([]float64, v.Dimension())
	for i := range out {
		out[i] = v.At(i)
	}
	return out
}

func (d Dense) mul(b Dense) Dense {
	if d.cols() != b.rows() {
		hbug("mul %dx%d by %dx%d", d.rows(), d.cols(), b.rows(), b.cols())
	}
	o := newDense(d.rows(), b.cols())
	for i := range d {
		oi := o[i]
		for k, x := range d[i] {
			if x == 0 {
				// only used with finite entries
				continue
			}
			bk := b[k]
			for j := range oi {
				oi[j] += x * bk[j]
			}
		}
	}
	return o
}

// mulIEEE keeps NaN and infinity propagation (no skipping of zeros).
func (d Dense) mulIEEE(b Dense) Dense {
	o := newDense(d.rows(), b.cols())
	for i := range d {
		for j := range o[i] {
			s := 0.0
			for k := range d[i] {
				s += d[i][k] * b[k][j]
			}
			o[i][j] = s
		}
	}
	return o
}

func (d Dense) t() Dense {
	o := newDense(d.cols(), d.rows())
	for i := range d {
		for j := range d[i] {
			o[j][i] = d[i][j]
		}
	}
	return o
}

func (d Dense) abs() Dense {
	o := d.clone()
	for i := range o {
		for j := range o[i] {
			o[i][j] = math.Abs(o[i][j])
		}
	}
	return o
}

func (d Dense) sub(b Dense) Dense {
	o := d.clone()
	for i := range o {
		for j := range o[i] {
			o[i][j] -= b[i][j]
		}
	}
	return o
}

func (d Dense) add(b Dense) Dense {
	o := d.clone()
	for i := range o {
		for j := range o[i] {
			o[i][j] += b[i][j]
		}
	}
	return o
}

func (d Dense) scale(f float64) Dense {
	o := d.clone()
	for i := range o {
		for j := range o[i] {
			o[i][j] *= f
		}
	}
	return o
}

// maxAbs is the largest |entry|; NaN when any entry is NaN.
func (d Dense) maxAbs() float64 {
	m := 0.0
	for i := range d {
		for j := range d[i] {
			x := math.Abs(d[i][j])
			if math.IsNaN(x) {
				return x
			}
			if x > m {
				m = x
			}
		}
	}
	return m
}

func (d Dense) fro() float64 {
	s := 0.0
	mx := d.maxAbs()
	if mx == 0 || math.IsNaN(mx) || math.IsInf(mx, 0) {
		return mx
	}
	for i := range d {
		for j := range d[i] {
			x := d[i][j] / mx
			s += x * x
		}
	}
	return mx * math.Sqrt(s)
}

func identity(n int) Dense {
	o := newDense(n, n)
	for i := range o {
		o[i][i] = 1
	}
	return o
}

func col(d Dense, j int) []float64 {
	o := make([]float64, d.rows())
	for i := range o {
		o[i] = d[i][j]
	}
	return o
}

func fromCol(v []float64) Dense {
	o := newDense(len(v), 1)
	for i := range v {
		o[i][0] = v[i]
	}
	return o
}

// near checks |got-want| <= tol in every entry.
func near(what string, got, want Dense, tol float64) error {
	if got.rows() != want.rows() || got.cols() != want.cols() {
		return fmt.Errorf("%s: is %dx%d, want %dx%d", what, got.rows(), got.cols(), want.rows(), want.cols())
	}
	for i := range want {
		for j := range want[i] {
			if !(math.Abs(got[i][j]-want[i][j]) <= tol) {
				return fmt.Errorf("%s: entry (%d,%d) of %dx%d is %v, want %v (tolerance %.3g)", what, i, j, want.rows(), want.cols(), got[i][j], want[i][j], tol)
			}
		}
	}
	return nil
}

// ---- calls that may be rejected ----------------------------------------------

type statusError interface {
	Error() string
	Status() int
}

// attempt runs f and returns what it panicked with (nil when it returned).
func attempt(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// rejection classifies a panic value or returned error: a library error
// carries a status; anything else is a crash.
func rejection(p interface{}) (status int, isLib bool) {
	if se, ok := p.(statusError); ok {
		return se.Status(), true
	}
	return 0, false
}
