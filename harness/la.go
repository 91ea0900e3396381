package main

// Generators and reference computations for the decompositions.

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// LA describes a matrix by how it is made. Everything but explicit entries is
// expanded deterministically from Seed; E is a power of two it is scaled by.
type LA struct {
	Kind string `json:"kind"`
	Rep  string `json:"rep"`
	R    int    `json:"r"`
	C    int    `json:"c"`
	K    int    `json:"k,omitempty"` // rank, exponent range, position: meaning depends on Kind
	E    int    `json:"e,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	D    []F    `json:"d,omitempty"`
}

func mini(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// orthogonal makes a random n x n orthogonal matrix, accurate to a few n*eps.
func orthogonal(r *splitmix, n int) Dense {
	q := identity(n)
	k := mini(n, 12)
	for h := 0; h < k; h++ {
		v := make([]float64, n)
		s := 0.0
		for i := range v {
			v[i] = r.norm() + 1e-3
			s += v[i] * v[i]
		}
		for i := range q { // Q (I - 2 v v'/v'v)
			d := 0.0
			for j := range v {
				d += q[i][j] * v[j]
			}
			d *= 2 / s
			for j := range v {
				q[i][j] -= d * v[j]
			}
		}
	}
	return q
}

// withSpectrum is U diag(s) V' for random orthogonal U, V.
func withSpectrum(r *splitmix, m, n int, s []float64) Dense {
	u, v := orthogonal(r, m), orthogonal(r, n)
	o := newDense(m, n)
	for i := range o {
		for j := range o[i] {
			x := 0.0
			for k := range s {
				x += u[i][k] * s[k] * v[j][k]
			}
			o[i][j] = x
		}
	}
	return o
}

// singular values of the "spectrum" kind: log-uniform over K decades, largest 1.
func spectrumOf(r *splitmix, p, decades int) []float64 {
	s := make([]float64, p)
	for i := range s {
		s[i] = math.Pow(10, -float64(decades)*r.unit())
	}
	s[0] = 1
	return s
}

func (a LA) dense() Dense {
	d := a.unscaled()
	if a.E != 0 {
		d = d.scale(math.Ldexp(1, a.E))
	}
	if showCases {
		fmt.Printf("%#v\n", d)
	}
	return d
}

func (a LA) unscaled() Dense {
	r := &splitmix{a.Seed}
	d := newDense(a.R, a.C)
	fill := func(f func(i, j int) float64) {
		for i := range d {
			for j := range d[i] {
				d[i][j] = f(i, j)
			}
		}
	}
	p := mini(a.R, a.C)
	switch a.Kind {
	case "explicit":
		fill(func(i, j int) float64 { return float64(a.D[i*a.C+j]) })
	case "int":
		fill(func(i, j int) float64 { return expand(r, dInt) })
	case "tiny":
		fill(func(i, j int) float64 { return expand(r, dTiny) })
	case "float":
		fill(func(i, j int) float64 { return expand(r, dFloat) })
	case "wide":
		fill(func(i, j int) float64 { return expand(r, dWide) })
	case "zero":
	case "ones":
		fill(func(i, j int) float64 { return 1 })
	case "identity":
		for i := 0; i < p; i++ {
			d[i][i] = 1
		}
	case "diag":
		for i := 0; i < p; i++ {
			d[i][i] = expand(r, dInt)
			if d[i][i] == 0 {
				d[i][i] = 4
			}
		}
	case "upper", "lower":
		fill(func(i, j int) float64 {
			if i == j {
				return 1 + 4*r.unit()
			}
			if (j > i) == (a.Kind == "upper") {
				return r.norm()
			}
			return 0
		})
	case "perm": // signed permutation
		q := make([]int, a.C)
		for i := range q {
			q[i] = i
		}
		for i := len(q) - 1; i > 0; i-- {
			j := r.intn(i + 1)
			q[i], q[j] = q[j], q[i]
		}
		for i := 0; i < p; i++ {
			d[i][q[i]] = float64(1 - 2*r.intn(2))
		}
	case "anti":
		for i := 0; i < p; i++ {
			d[i][a.C-1-i] = 1 + r.unit()
		}
	case "hilbert":
		fill(func(i, j int) float64 { return 1 / float64(i+j+1) })
	case "toeplitz":
		v := make([]float64, a.R+a.C)
		for i := range v {
			v[i] = r.norm()
		}
		fill(func(i, j int) float64 { return v[i-j+a.C] })
	case "orth":
		if a.R >= a.C {
			q := orthogonal(r, a.R)
			fill(func(i, j int) float64 { return q[i][j] })
		} else {
			q := orthogonal(r, a.C)
			fill(func(i, j int) float64 { return q[i][j] })
		}
	case "spectrum":
		return withSpectrum(r, a.R, a.C, spectrumOf(r, p, a.K))
	case "clustered": // repeated and nearly repeated singular values
		s := make([]float64, p)
		for i := range s {
			s[i] = []float64{1, 1, 1 + 1e-14, 0.5, 0.5}[r.intn(5)]
		}
		return withSpectrum(r, a.R, a.C, s)
	case "rank": // integer matrix of rank at most K
		x, y := newDense(a.R, maxi(a.K, 1)), newDense(maxi(a.K, 1), a.C)
		for i := range x {
			for j := range x[i] {
				x[i][j] = float64(r.sym(3))
			}
		}
		for i := range y {
			for j := range y[i] {
				y[i][j] = float64(r.sym(3))
			}
		}
		if a.K == 0 {
			return d
		}
		return x.mul(y)
	case "frank": // rank exactly K, nonzero singular values in [0.1,1]
		s := make([]float64, a.K)
		for i := range s {
			s[i] = 0.1 + 0.9*r.unit()
		}
		return withSpectrum(r, a.R, a.C, s)
	case "gradedrows":
		fill(func(i, j int) float64 { return r.norm() * math.Ldexp(1, -i*a.K) })
	case "gradedcols":
		fill(func(i, j int) float64 { return r.norm() * math.Ldexp(1, -j*a.K) })
	case "speck": // some entries ordinary, some zero, some next to underflow
		fill(func(i, j int) float64 { return speck(r) })
		d[r.intn(a.R)][r.intn(a.C)] = float64(1 + r.intn(9))
	case "fleck":
		fill(func(i, j int) float64 { return fleck(r) })
		d[r.intn(a.R)][r.intn(a.C)] = float64(1 + r.intn(9))
	case "cyclic": // the permutation i -> i+1, eigenvalues the roots of unity
		for i := range d {
			d[i][(i+1)%a.C] = 1
		}
	case "jordan": // one eigenvalue, one chain
		x := float64(r.sym(2))
		for i := range d {
			d[i][i] = x
			if i+1 < a.C {
				d[i][i+1] = 1
			}
		}
	case "strict": // strictly triangular, nilpotent
		fill(func(i, j int) float64 {
			if (a.K%2 == 0 && j > i) || (a.K%2 == 1 && j < i) {
				return float64(r.sym(4))
			}
			return 0
		})
	case "companion":
		for i := range d {
			d[i][a.C-1] = float64(r.sym(4))
			if i > 0 {
				d[i][i-1] = 1
			}
		}
	case "skew":
		for i := range d {
			for j := 0; j < i; j++ {
				x := r.norm()
				d[i][j], d[j][i] = x, -x
			}
		}
	case "hess":
		fill(func(i, j int) float64 {
			if i > j+1 {
				return 0
			}
			return expand(r, dInt)
		})
	case "defect": // unimodular similarity of Jordan blocks
		d, _ := unimodularSim(r, a.blocks(r, true))
		return d
	case "chains": // orthogonally similar to a few eigenvalues (for most K: one) in short chains
		many := 1
		if a.K%4 == 3 {
			many = 2 + r.intn(3)
		}
		x, sparse := float64(r.sym(2)), r.intn(2) == 0
		for i := range d {
			d[i][i] = x + 0.375*float64(r.intn(many))
			for j := i + 1; j < a.R; j++ {
				if sparse && r.intn(a.R) < 3 {
					d[i][j] = float64(r.sym(2))
				} else if !sparse && j == i+1 && r.intn(2) == 0 {
					d[i][j] = 1
				}
			}
		}
		q := orthogonal(r, a.R)
		return q.mul(d).mul(q.t())
	case "blocks": // quasi-triangular as it stands, integer
		return a.blocks(r, true)
	case "lopsided": // the same with blocks whose off-diagonal entries differ widely
		d := a.blocks(r, true)
		for i := 0; i+1 < a.R; i++ {
			if d[i+1][i] != 0 {
				k := r.sym(26)
				d[i][i+1], d[i+1][i] = math.Ldexp(d[i][i+1], k), math.Ldexp(d[i+1][i], -k)
			}
		}
		return d
	case "intsim": // integer, eigenvalues known
		d, _ := unimodularSim(r, a.quasiDiag())
		return d
	case "normal": // orthogonally similar to quasi-diagonal, eigenvalues known
		q := orthogonal(r, a.R)
		return q.mul(a.quasiDiag()).mul(q.t())
	case "nearsym": // symmetric but for a few units in the last place
		fill(func(i, j int) float64 {
			if j < i {
				return d[j][i] * (1 + eps*float64(r.sym(2)))
			}
			return r.norm()
		})
	case "offsym": // symmetric but for one entry, or all, that are off by 2^-(10+K)
		all, at := r.intn(2) == 0, r.intn(a.R*a.R)
		fill(func(i, j int) float64 {
			x := r.norm()
			if j < i {
				x = d[j][i]
				if all || at == i*a.R+j {
					x *= 1 + math.Ldexp(float64(r.sym(1)), -10-a.K)
				}
			}
			return x
		})
	case "zerocol", "zerorow", "dupcol", "duprow":
		fill(func(i, j int) float64 { return expand(r, dInt) })
		x, y := a.K%a.C, (a.K+1+r.intn(maxi(1, a.C-1)))%a.C
		u, w := a.K%a.R, (a.K+1+r.intn(maxi(1, a.R-1)))%a.R
		for i := range d {
			switch a.Kind {
			case "zerocol":
				d[i][x] = 0
			case "dupcol":
				d[i][y] = d[i][x]
			}
		}
		for j := range d[0] {
			switch a.Kind {
			case "zerorow":
				d[u][j] = 0
			case "duprow":
				d[w][j] = d[u][j]
			}
		}
	default:
		hbug("LA kind %q", a.Kind)
	}
	return d
}

// blocks: random 1x1 and 2x2 diagonal blocks, small integers above them.
func (a LA) blocks(r *splitmix, above bool) Dense {
	d := newDense(a.R, a.R)
	for i := 0; i < a.R; {
		w := 1
		if i+1 < a.R && r.intn(2) == 0 {
			w = 2
		}
		x := float64(r.sym(2))
		d[i][i] = x
		if w == 2 {
			d[i+1][i+1] = x
			d[i][i+1] = float64(1 + r.intn(3))
			d[i+1][i] = -float64(r.intn(4))
		}
		for j := i + w; above && j < a.R; j++ {
			for k := i; k < i+w; k++ {
				d[k][j] = float64(r.sym(2))
			}
		}
		i += w
	}
	return d
}

// spectrum of the kinds "normal" and "intsim", before scaling: real numbers and
// adjacent conjugate pairs. K%3: all real, mixed, as many pairs as possible.
func (a LA) spectrum() []complex128 {
	r := &splitmix{a.Seed ^ 0x777}
	var l []complex128
	for len(l) < a.R {
		pair := len(l)+1 < a.R && (a.K%3 == 2 || (a.K%3 == 1 && r.intn(2) == 0))
		re := float64(r.sym(5))
		if a.Kind == "normal" && a.K%2 == 0 {
			re = r.norm()
		}
		if pair {
			im := float64(1 + r.intn(5))
			l = append(l, complex(re, im), complex(re, -im))
		} else {
			l = append(l, complex(re, 0))
		}
	}
	return l
}

func (a LA) quasiDiag() Dense {
	d := newDense(a.R, a.R)
	l := a.spectrum()
	for i := range l {
		d[i][i] = real(l[i])
		switch {
		case imag(l[i]) > 0:
			d[i][i+1] = imag(l[i])
		case imag(l[i]) < 0:
			d[i][i-1] = imag(l[i])
		}
	}
	return d
}

// unimodularSim is S d S^-1 for a product S of a few integer shears, and the
// condition number of S (Frobenius).
func unimodularSim(r *splitmix, d Dense) (Dense, float64) {
	n := len(d)
	d = d.clone()
	x, y := identity(n), identity(n)
	for h := 0; n > 1 && h < n+2; h++ {
		i, j := r.intn(n), r.intn(n)
		if i == j {
			continue
		}
		s := float64(1 - 2*r.intn(2))
		for k := range d { // row i += s row j; column j -= s column i
			d[i][k] += s * d[j][k]
			x[i][k] += s * x[j][k]
		}
		for k := range d {
			d[k][j] -= s * d[k][i]
			y[k][j] -= s * y[k][i]
		}
	}
	return d, x.fro() * y.fro()
}

func fleck(r *splitmix) float64 {
	x := float64(r.sym(9))
	switch r.intn(3) {
	case 0:
		return x
	case 1:
		return math.Ldexp(x, -20-r.intn(250))
	}
	return 0
}

func speck(r *splitmix) float64 {
	x := float64(r.sym(9))
	switch r.intn(3) {
	case 0:
		return x
	case 1:
		return math.Ldexp(x, -300-r.intn(780))
	}
	return 0
}

func (a LA) build() (lin.RealMatrix, Dense) {
	d := a.dense()
	return buildMat(a.Rep, d), d
}

var laGeneral = []string{"explicit", "explicit", "int", "tiny", "float", "wide", "zero", "ones", "identity", "diag", "upper", "lower", "perm", "anti",
	"hilbert", "toeplitz", "orth", "spectrum", "clustered", "rank", "frank", "gradedrows", "gradedcols", "speck", "fleck", "zerocol", "zerorow", "dupcol", "duprow"}

var laSquare = append([]string{"cyclic", "jordan", "strict", "companion", "skew", "hess", "defect", "chains", "blocks", "lopsided", "nearsym", "offsym", "intsim", "intsim", "normal", "normal"}, laGeneral...)

// laEigen leaves out the matrices whose eigenvectors overflow.
var laEigen = without(laSquare, "speck")

func without(xs []string, x string) []string {
	var o []string
	for _, s := range xs {
		if s != x {
			o = append(o, s)
		}
	}
	return o
}

func genLA(t *rapid.T, r, c int, kinds []string, scales bool) LA {
	a := LA{R: r, C: c, Kind: oneOf(t, kinds, "kind")}
	a.Rep = genRep(t, denseReps, "rep")
	if a.Kind == "diag" && r == c && pct(t, 40, "diagrep") {
		a.Rep = "diag"
	}
	if a.Kind == "explicit" && r*c > explicitMax {
		a.Kind = "int"
	}
	p := mini(r, c)
	switch a.Kind {
	case "explicit":
		dist := oneOf(t, []string{dInt, dTiny, dTiny, dFloat, dWide}, "dist")
		a.D = make([]F, r*c)
		for i := range a.D {
			a.D[i] = F(genVal(t, dist, "d"))
		}
	case "rank", "frank":
		a.K = pick(t, p+1, "rank")
	case "spectrum":
		a.K = pick(t, 9, "decades")
	case "offsym":
		a.K = pick(t, 40, "k")
	case "gradedrows", "gradedcols":
		a.K = 1 + pick(t, 2, "grade")
	default:
		a.K = pick(t, maxi(r, c), "k")
	}
	if a.Kind != "explicit" {
		a.Seed = uint64(pick(t, 1<<20, "seed"))
	}
	if scales {
		a.E = oneOf(t, []int{0, 0, 0, 0, 0, 0, 10, -10, 35, -35, 100, -100, 250, -250}, "scale")
	}
	return a
}

// far moves some matrices to a scale whose squares are just representable, or
// (limit 900) to one whose squares are not.
func far(t *rapid.T, e *int, limit int) {
	switch pick(t, 16, "far") {
	case 0:
		*e = 450
	case 1:
		*e = -450
	case 2:
		if limit == 900 {
			*e = 900
		}
	case 3:
		if limit == 900 {
			*e = -900
		}
	}
}

// laDim draws dimensions for decompositions: small, medium, around a block edge.
func laDim(t *rapid.T, max int, label string) int {
	k := pick(t, 100, label+"K")
	switch {
	case k < 65:
		return 1 + pick(t, mini(max, 6), label)
	case k < 88:
		return 1 + pick(t, mini(max, 24), label)
	case max >= 51:
		var e []int
		for _, s := range []int{51, 52, 53, 54, 60, 65} {
			if s <= max {
				e = append(e, s)
			}
		}
		return oneOf(t, e, label)
	}
	return 1 + pick(t, max, label)
}

// ---- references ---------------------------------------------------------------

// intDet is the exact determinant of an integer matrix (Bareiss).
func intDet(d Dense) *big.Int {
	x, exp := bareiss(d)
	if exp != 0 {
		hbug("intDet of a matrix that is not integer")
	}
	return x
}

// bareiss is the exact determinant, in units of 2^exp to the power of the order.
func bareiss(d Dense) (det *big.Int, exp int) {
	n := len(d)
	a, exp := bigMatrix(d)
	sign := 1
	prev := big.NewInt(1)
	for k := 0; k < n-1; k++ {
		if a[k][k].Sign() == 0 {
			s := -1
			for i := k + 1; i < n; i++ {
				if a[i][k].Sign() != 0 {
					s = i
					break
				}
			}
			if s < 0 {
				return big.NewInt(0), exp
			}
			a[k], a[s] = a[s], a[k]
			sign = -sign
		}
		for i := k + 1; i < n; i++ {
			for j := k + 1; j < n; j++ {
				x := new(big.Int).Mul(a[i][j], a[k][k])
				y := new(big.Int).Mul(a[i][k], a[k][j])
				x.Sub(x, y)
				a[i][j] = x.Quo(x, prev)
			}
		}
		prev = a[k][k]
	}
	r := new(big.Int).Set(a[n-1][n-1])
	if sign < 0 {
		r.Neg(r)
	}
	return r, exp
}

// bigMatrix is the matrix with entries in integer multiples of 2^exp.
func bigMatrix(d Dense) (a [][]*big.Int, exp int) {
	a = make([][]*big.Int, d.rows())
	for i := range d {
		for _, x := range d[i] {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				hbug("bigMatrix of %v", x)
			}
			if x != math.Trunc(x) || math.Abs(x) > 1e15 {
				if _, e := math.Frexp(x); e-53 < exp {
					exp = e - 53
				}
			}
		}
	}
	for i := range d {
		for _, x := range d[i] {
			var b *big.Int
			if x == math.Trunc(x) && math.Abs(x) <= 1e15 {
				b = big.NewInt(int64(x))
				b.Lsh(b, uint(-exp))
			} else {
				f, e := math.Frexp(x)
				b = big.NewInt(int64(math.Ldexp(f, 53)))
				b.Lsh(b, uint(e-53-exp))
			}
			a[i] = append(a[i], b)
		}
	}
	return a, exp
}

// exactDet is the exact determinant, rounded once.
func exactDet(d Dense) float64 {
	i, exp := bareiss(d)
	f := new(big.Float).SetInt(i)
	f.SetMantExp(f, exp*len(d))
	x, _ := f.Float64()
	return x
}

func bigToFloat(x *big.Int) float64 {
	f, _ := new(big.Float).SetInt(x).Float64()
	return f
}

// intRank is the exact rank.
func intRank(d Dense) int {
	m, n := d.rows(), d.cols()
	a, _ := bigMatrix(d)
	r := 0
	prev := big.NewInt(1)
	for c := 0; c < n && r < m; c++ {
		s := -1
		for i := r; i < m; i++ {
			if a[i][c].Sign() != 0 {
				s = i
				break
			}
		}
		if s < 0 {
			continue
		}
		a[r], a[s] = a[s], a[r]
		for i := r + 1; i < m; i++ {
			for j := c + 1; j < n; j++ {
				x := new(big.Int).Mul(a[i][j], a[r][c])
				y := new(big.Int).Mul(a[i][c], a[r][j])
				x.Sub(x, y)
				a[i][j] = x.Quo(x, prev)
			}
			a[i][c] = big.NewInt(0)
		}
		prev = a[r][c]
		r++
	}
	return r
}

func isInt(d Dense, max float64) bool {
	for i := range d {
		for _, x := range d[i] {
			if x != math.Trunc(x) || math.Abs(x) > max {
				return false
			}
		}
	}
	return true
}

// hadamard bounds |det|: the product of the row norms.
func hadamard(d Dense) float64 {
	h := 1.0
	for i := range d {
		h *= norm2Ref(d[i])
	}
	return h
}

func orthoErr(q Dense) float64 { return q.t().mul(q).sub(identity(q.cols())).maxAbs() }

// orthonormal: the columns of q are orthonormal to tol.
func orthonormal(what string, q Dense, tol float64) error {
	e := orthoErr(q)
	track(what+" orthonormality", e/tol)
	if !(e <= tol) {
		return fmt.Errorf("%s (%dx%d): columns are not orthonormal, error %.3g (tolerance %.3g)", what, q.rows(), q.cols(), e, tol)
	}
	return nil
}

// reproduces: |got - want| <= tol*scale entrywise, scale being the norm of the input.
func reproduces(what string, got, want Dense, tol float64) error {
	scale := want.fro()
	if got.rows() != want.rows() || got.cols() != want.cols() {
		return fmt.Errorf("%s: is %dx%d, want %dx%d", what, got.rows(), got.cols(), want.rows(), want.cols())
	}
	track(what, got.sub(want).maxAbs()/(tol*scale+1e-290))
	return near(what, got, want, tol*scale+1e-290)
}

// reproducesColumns: every column to tol times its own norm, as Householder's
// method promises; columns of norm under 2^-500 are taken for zero.
func reproducesColumns(what string, got, want Dense, tol float64) error {
	for j := 0; j < want.cols(); j++ {
		e, w := 0.0, 0.0
		for i := range want {
			w = math.Hypot(w, want[i][j])
			e = math.Hypot(e, got[i][j]-want[i][j])
		}
		track(what+" by column", e/(tol*w+0x1p-500))
		if !(e <= tol*w+0x1p-500) {
			return fmt.Errorf("%s: column %d is off by %.3g, its norm is %.3g (tolerance %.3g)", what, j, e, w, tol*w)
		}
	}
	return nil
}

// track records how much of a tolerance was used (VERIF_RATIOS=file), for calibration.
var ratioFile = os.Getenv("VERIF_RATIOS")

// VERIF_SHOW=1 prints the matrices of a replayed case.
var showCases = os.Getenv("VERIF_SHOW") == "1"
var ratioMu sync.Mutex
var ratios = map[string]float64{}

func track(name string, x float64) {
	if ratioFile == "" {
		return
	}
	ratioMu.Lock()
	defer ratioMu.Unlock()
	if x > ratios[name] {
		ratios[name] = x
	}
}

func dumpRatios() {
	if ratioFile == "" {
		return
	}
	f, err := os.OpenFile(ratioFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return
	}
	defer f.Close()
	for k, v := range ratios {
		fmt.Fprintf(f, "%.4g\t%s\n", v, k)
	}
}

func sameDense(what string, got, want Dense) error {
	if got.rows() != want.rows() || got.cols() != want.cols() {
		return fmt.Errorf("%s: is %dx%d, want %dx%d", what, got.rows(), got.cols(), want.rows(), want.cols())
	}
	for i := range want {
		for j := range want[i] {
			if !same(got[i][j], want[i][j]) {
				return fmt.Errorf("%s: entry (%d,%d) is %v, want %v", what, i, j, got[i][j], want[i][j])
			}
		}
	}
	return nil
}

func shape(what string, m lin.RealMatrix, r, c int) error {
	if m == nil {
		return fmt.Errorf("%s is nil", what)
	}
	if m.RowDimension() != r || m.ColumnDimension() != c {
		return fmt.Errorf("%s is %dx%d, want %dx%d", what, m.RowDimension(), m.ColumnDimension(), r, c)
	}
	return nil
}

// permutationMatrix: 0/1 with a single 1 per row and column.
func permutationMatrix(what string, p Dense) error {
	n := p.rows()
	if p.cols() != n {
		return fmt.Errorf("%s is %dx%d", what, n, p.cols())
	}
	colSeen := make([]int, n)
	for i := range p {
		ones := 0
		for j, x := range p[i] {
			if x == 1 {
				ones++
				colSeen[j]++
			} else if x != 0 {
				return fmt.Errorf("%s has entry %v at (%d,%d)", what, x, i, j)
			}
		}
		if ones != 1 {
			return fmt.Errorf("%s has %d ones in row %d", what, ones, i)
		}
	}
	for j, k := range colSeen {
		if k != 1 {
			return fmt.Errorf("%s has %d ones in column %d", what, k, j)
		}
	}
	return nil
}

// zeroOutside: entries for which keep is false are exactly zero.
func zeroOutside(what string, d Dense, keep func(i, j int) bool) error {
	for i := range d {
		for j := range d[i] {
			if !keep(i, j) && d[i][j] != 0 {
				return fmt.Errorf("%s: entry (%d,%d) is %v, want 0", what, i, j, d[i][j])
			}
		}
	}
	return nil
}

func errs(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

// rendered: the message of a refusal is there, with its arguments filled in.
func rendered(what string, e error) error {
	msg := e.Error()
	if len(msg) < 8 || strings.Contains(msg, "%!") || strings.Contains(msg, "{0}") || strings.Contains(msg, "<nil>") {
		return fmt.Errorf("%s: refused, with the message %q", what, msg)
	}
	// the details given show a violation
	arg := math.NaN()
	if x, ok := e.(interface{ Argument() float64 }); ok {
		arg = x.Argument()
	}
	if x, ok := e.(interface {
		Low() float64
		High() float64
	}); ok && !(arg < x.Low() || arg > x.High()) {
		return fmt.Errorf("%s: refused because %v is not between %v and %v", what, arg, x.Low(), x.High())
	}
	if x, ok := e.(interface{ Min() float64 }); ok && !(arg <= x.Min()) && !math.IsNaN(arg) {
		return fmt.Errorf("%s: refused because %v is under %v", what, arg, x.Min())
	}
	if x, ok := e.(interface{ Max() float64 }); ok && !(arg >= x.Max()) && !math.IsNaN(arg) {
		return fmt.Errorf("%s: refused because %v is over %v", what, arg, x.Max())
	}
	if x, ok := e.(interface {
		WrongDimensions() []int
		ExpectedDimensions() []int
	}); ok && fmt.Sprint(x.WrongDimensions()) == fmt.Sprint(x.ExpectedDimensions()) {
		return fmt.Errorf("%s: refused because dimensions %v differ from %v", what, x.WrongDimensions(), x.ExpectedDimensions())
	}
	if x, ok := e.(interface {
		WrongDimensions() []int
		WrongRowDimension() int
		WrongColumnDimension() int
		ExpectedDimensions() []int
		ExpectedRowDimension() int
		ExpectedColumnDimension() int
		WrongDimension(int) int
		ExpectedDimension(int) int
	}); ok {
		w, x1 := []int{x.WrongRowDimension(), x.WrongColumnDimension()}, []int{x.ExpectedRowDimension(), x.ExpectedColumnDimension()}
		if fmt.Sprint(w) != fmt.Sprint(x.WrongDimensions()) || fmt.Sprint(x1) != fmt.Sprint(x.ExpectedDimensions()) || x.WrongDimension(1) != w[1] || x.ExpectedDimension(0) != x1[0] {
			return fmt.Errorf("%s: refused with inconsistent dimensions: %v %v, %v %v", what, w, x.WrongDimensions(), x1, x.ExpectedDimensions())
		}
	}
	if x, ok := e.(interface{ IsBoundAllowed() bool }); ok && x.IsBoundAllowed() {
		if y, ok := e.(interface{ Max() float64 }); ok && arg == y.Max() {
			return fmt.Errorf("%s: refused because %v is over %v, said to be allowed", what, arg, y.Max())
		}
		if y, ok := e.(interface{ Min() float64 }); ok && arg == y.Min() {
			return fmt.Errorf("%s: refused because %v is under %v, said to be allowed", what, arg, y.Min())
		}
	}
	return nil
}

// pointsAt: a refusal that names an entry and a threshold names (i,j), in
// either order, and thr.
func pointsAt(what string, p interface{}, i, j int, thr float64) error {
	x, ok := p.(interface {
		Row() int
		Column() int
		Threshold() float64
	})
	if !ok {
		return nil
	}
	if r, c := x.Row(), x.Column(); !(r == i && c == j || r == j && c == i) {
		return fmt.Errorf("%s: the refusal points at entry (%d,%d), want (%d,%d)", what, r, c, i, j)
	}
	if x.Threshold() != thr {
		return fmt.Errorf("%s: the refusal names the threshold %v, want %v", what, x.Threshold(), thr)
	}
	return nil
}

// refusedAs: err or panic value p must be a library error of one of the statuses.
func refusedAs(what string, p interface{}, statuses ...int) error {
	if p == nil {
		return fmt.Errorf("%s was accepted", what)
	}
	st, lib := rejection(p)
	if !lib {
		return fmt.Errorf("%s: crashed with %v", what, p)
	}
	for _, s := range statuses {
		if s == st {
			if e, ok := p.(error); ok {
				return rendered(what, e)
			}
			return nil
		}
	}
	return fmt.Errorf("%s: refused with status %d (%v), want %v", what, st, p, statuses)
}

// tried runs a constructor; the result is what refused it (nil when accepted).
func tried(f func() error) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
		}
	}()
	if err := f(); err != nil {
		return err
	}
	return nil
}
