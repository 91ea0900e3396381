package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// Sym describes a symmetric matrix by how it is made.
type Sym struct {
	Kind string `json:"kind"`
	Rep  string `json:"rep"`
	N    int    `json:"n"`
	K    int    `json:"k,omitempty"`
	E    int    `json:"e,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	D    []F    `json:"d,omitempty"` // upper triangle, row by row, when explicit
}

var symAll = []string{"explicit", "explicit", "int", "tiny", "float", "wide", "zero", "identity", "ones", "diag", "tridiag", "few", "known", "repeated",
	"gram", "ldl", "psdrank", "anti", "arrow", "hilbert", "blockdiag", "speck"}

// knownEigenvalues: the spectrum of the kinds built with one, largest first.
func (a Sym) knownEigenvalues() []float64 {
	r := &splitmix{a.Seed ^ 0x5555}
	l := make([]float64, a.N)
	for i := range l {
		switch a.Kind {
		case "known":
			l[i] = r.norm() * math.Pow(10, -float64(a.K)*r.unit())
		case "repeated":
			l[i] = float64(r.sym(2))
		case "known+": // positive, K decades
			l[i] = math.Pow(10, -float64(a.K)*r.unit())
		default:
			hbug("no known spectrum for %q", a.Kind)
		}
	}
	sortDesc(l)
	return l
}

func sortDesc(l []float64) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] > l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func (a Sym) dense() Dense {
	d := a.unscaled()
	if a.E != 0 {
		d = d.scale(math.Ldexp(1, a.E))
	}
	if showCases {
		fmt.Printf("%#v\n", d)
	}
	return d
}

func (a Sym) unscaled() Dense {
	n := a.N
	r := &splitmix{a.Seed}
	d := newDense(n, n)
	fill := func(f func(i, j int) float64) Dense {
		for i := range d {
			for j := i; j < n; j++ {
				x := f(i, j)
				d[i][j], d[j][i] = x, x
			}
		}
		return d
	}
	switch a.Kind {
	case "explicit":
		k := 0
		return fill(func(i, j int) float64 { k++; return float64(a.D[k-1]) })
	case "int":
		return fill(func(i, j int) float64 { return expand(r, dInt) })
	case "tiny":
		return fill(func(i, j int) float64 { return expand(r, dTiny) })
	case "float":
		return fill(func(i, j int) float64 { return expand(r, dFloat) })
	case "wide":
		return fill(func(i, j int) float64 { return expand(r, dWide) })
	case "zero":
		return d
	case "identity":
		return identity(n)
	case "ones":
		return fill(func(i, j int) float64 { return 1 })
	case "speck":
		fill(func(i, j int) float64 { return speck(r) })
		i, j, x := r.intn(n), r.intn(n), float64(1+r.intn(9))
		d[i][j], d[j][i] = x, x
		return d
	case "diag":
		for i := range d {
			d[i][i] = expand(r, dInt)
		}
		return d
	case "posdiag":
		for i := range d {
			d[i][i] = float64(1 + r.intn(9))
		}
		return d
	case "zerodiag": // nonnegative, some entry zero
		for i := range d {
			d[i][i] = float64(r.intn(10))
		}
		d[a.K%n][a.K%n] = 0
		return d
	case "tridiag":
		return fill(func(i, j int) float64 {
			if j-i > 1 {
				return 0
			}
			return float64(r.sym(4))
		})
	case "few": // few distinct eigenvalues, rotated by three reflections, of which the last may leave most rows alone
		g, low := 2+r.intn(4), -float64(r.intn(3))*0.5
		for i := range d {
			d[i][i] = low + 0.375*float64(r.intn(g))
		}
		for h := 0; h < 3; h++ {
			v, w, s, q := make([]float64, n), make([]float64, n), 0.0, 0.0
			for i := range v {
				if v[i] = r.norm(); h == 2 && r.intn(3) > 0 {
					v[i] = 0
				}
				s += v[i] * v[i]
			}
			if s == 0 {
				continue
			}
			for i := range d {
				for j := range v {
					w[i] += d[i][j] * v[j]
				}
				q += w[i] * v[i]
			}
			for i := range d {
				for j := range d {
					d[i][j] += -2/s*(v[i]*w[j]+w[i]*v[j]) + 4*q/s/s*v[i]*v[j]
				}
			}
		}
		return fill(func(i, j int) float64 { return d[i][j] })
	case "known", "repeated", "known+":
		l := a.knownEigenvalues()
		q := orthogonal(r, n)
		return fill(func(i, j int) float64 {
			s := 0.0
			for k := range l {
				s += q[i][k] * l[k] * q[j][k]
			}
			return s
		})
	case "gram": // G G' + ridge 2^-K
		g := newDense(n, n)
		for i := range g {
			for j := range g[i] {
				g[i][j] = r.norm()
			}
		}
		h := g.mul(g.t())
		ridge := math.Ldexp(1, -a.K)
		return fill(func(i, j int) float64 {
			if i == j {
				return h[i][j] + ridge
			}
			return h[i][j]
		})
	case "ldl": // L D L' with integer unit lower triangular L, D in 1..9
		l, piv := a.ldl()
		ld := l.clone()
		for i := range ld {
			for k := range piv {
				ld[i][k] *= piv[k]
			}
		}
		return ld.mul(l.t())
	case "psdrank": // G G' with integer n x K
		if a.K == 0 {
			return d
		}
		g := newDense(n, a.K)
		for i := range g {
			for j := range g[i] {
				g[i][j] = float64(r.sym(2))
			}
		}
		return g.mul(g.t())
	case "psdfrank": // K eigenvalues in [0.1,1], the others 0
		q := orthogonal(r, n)
		l := make([]float64, a.K)
		for i := range l {
			l[i] = 0.1 + 0.9*r.unit()
		}
		return fill(func(i, j int) float64 {
			s := 0.0
			for k := range l {
				s += q[i][k] * l[k] * q[j][k]
			}
			return s
		})
	case "negdir": // positive semidefinite but for one direction that is clearly negative
		g := newDense(n, n)
		for i := range g {
			for j := range g[i] {
				g[i][j] = float64(r.sym(2))
			}
		}
		h := g.mul(g.t())
		k := a.K % n
		for i := range h {
			if i != k {
				h[i][k], h[k][i] = 0, 0
			}
		}
		h[k][k] = -float64(1 + r.intn(9))
		return h
	case "anti":
		return fill(func(i, j int) float64 {
			if i+j == n-1 {
				return float64(1 + i)
			}
			return 0
		})
	case "arrow":
		return fill(func(i, j int) float64 {
			if i == 0 || i == j {
				return r.norm()
			}
			return 0
		})
	case "hilbert":
		return fill(func(i, j int) float64 { return 1 / float64(i+j+1) })
	case "blockdiag": // decoupled 2x2 blocks
		return fill(func(i, j int) float64 {
			if i == j || (i/2 == j/2) {
				return float64(r.sym(5))
			}
			return 0
		})
	}
	hbug("Sym kind %q", a.Kind)
	return nil
}

// ldl: the integer factors of the "ldl" kind. K > 0 makes pivot K-1 zero or
// negative, depending on the seed.
func (a Sym) ldl() (Dense, []float64) {
	r := &splitmix{a.Seed ^ 0xabc}
	l := identity(a.N)
	for i := range l {
		for j := 0; j < i; j++ {
			l[i][j] = float64(r.sym(1))
		}
	}
	p := make([]float64, a.N)
	for i := range p {
		p[i] = float64(1 + r.intn(9))
	}
	if a.K > 0 {
		p[a.K-1] = float64(-r.intn(4))
	}
	return l, p
}

func (a Sym) build() (lin.RealMatrix, Dense) {
	d := a.dense()
	return buildMat(a.Rep, d), d
}

func genSym(t *rapid.T, n int, kinds []string, scales []int) Sym {
	a := Sym{N: n, Kind: oneOf(t, kinds, "kind")}
	a.Rep = genRep(t, denseReps, "rep")
	if a.Kind == "explicit" && n > 8 {
		a.Kind = "int"
	}
	if a.Kind == "ldl" && n > 9 {
		a.N = 1 + n%9
		n = a.N
	}
	switch a.Kind {
	case "explicit":
		dist := oneOf(t, []string{dInt, dTiny, dTiny, dFloat, dWide}, "dist")
		a.D = make([]F, n*(n+1)/2)
		for i := range a.D {
			a.D[i] = F(genVal(t, dist, "d"))
		}
		return a.withScale(t, scales)
	case "diag", "posdiag", "zerodiag", "zero", "identity":
		if a.Kind == "zerodiag" {
			a.K = pick(t, n, "zero at")
		}
		if pct(t, 30, "diagrep") {
			a.Rep = "diag"
		}
	case "known", "known+":
		a.K = pick(t, 7, "decades")
	case "gram":
		a.K = pick(t, 14, "ridge")
	case "negdir":
		a.K = pick(t, n, "direction")
	case "psdrank", "psdfrank":
		a.K = pick(t, n+1, "rank")
	}
	a.Seed = uint64(pick(t, 1<<20, "seed"))
	return a.withScale(t, scales)
}

func (a Sym) withScale(t *rapid.T, scales []int) Sym {
	if len(scales) > 0 {
		a.E = oneOf(t, scales, "scale")
	}
	return a
}

// jacobiEigenvalues of a symmetric matrix, largest first: the reference.
func jacobiEigenvalues(d Dense) []float64 {
	a := d.clone()
	n := len(a)
	for sweep := 0; sweep < 60; sweep++ {
		off := 0.0
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				off += a[p][q] * a[p][q]
			}
		}
		if off <= 1e-34*a.fro()*a.fro() {
			break
		}
		for p := 0; p < n; p++ {
			for q := p + 1; q < n; q++ {
				if a[p][q] == 0 {
					continue
				}
				th := (a[q][q] - a[p][p]) / (2 * a[p][q])
				t := 1 / (math.Abs(th) + math.Hypot(th, 1))
				if th < 0 {
					t = -t
				}
				c := 1 / math.Hypot(t, 1)
				s := t * c
				for k := 0; k < n; k++ {
					x, y := a[k][p], a[k][q]
					a[k][p], a[k][q] = c*x-s*y, s*x+c*y
				}
				for k := 0; k < n; k++ {
					x, y := a[p][k], a[q][k]
					a[p][k], a[q][k] = c*x-s*y, s*x+c*y
				}
			}
		}
	}
	l := make([]float64, n)
	for i := range l {
		l[i] = a[i][i]
	}
	sortDesc(l)
	return l
}
