package main

import (
	"fmt"
	"math"
	"sync"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// GoTask is one piece of work of a goroutine: on matrices of its own, made from
// Seed, and on the shared ones, which it only reads.
type GoTask struct {
	Kind string `json:"kind"`
	Rep  string `json:"rep"`
	Seed uint64 `json:"seed"`
}

type GoCase struct {
	R    int        `json:"r"` // the shared matrix is R x C, the shared positive definite one C x C
	C    int        `json:"c"`
	Rep  string     `json:"rep"`
	VRep string     `json:"vrep"`
	Seed uint64     `json:"seed"`
	Go   [][]GoTask `json:"go"` // the tasks of each goroutine
}

var goKinds = []string{"arith", "product", "operate", "read", "walk", "write", "vector", "diagonal",
	"LU", "QR", "RRQR", "Cholesky", "SVD", "eigen", "eigen general", "Schur", "Hessenberg", "tridiagonal", "bidiagonal", "root",
	"refused"}

type goShared struct {
	m, p lin.RealMatrix
	v    lin.RealVector // of length C
}

type digest struct {
	vals []float64
	text []string
}

func (g *digest) num(v ...float64) { g.vals = append(g.vals, v...) }
func (g *digest) flag(b bool) {
	if b {
		g.num(1)
	} else {
		g.num(0)
	}
}
func (g *digest) mat(ms ...lin.RealMatrix) {
	for _, m := range ms {
		g.num(float64(m.RowDimension()), float64(m.ColumnDimension()))
		for i := 0; i < m.RowDimension(); i++ {
			for j := 0; j < m.ColumnDimension(); j++ {
				g.num(m.At(i, j))
			}
		}
	}
}
func (g *digest) vec(vs ...lin.RealVector) {
	for _, v := range vs {
		for i := 0; i < v.Dimension(); i++ {
			g.num(v.At(i))
		}
	}
}
func (g *digest) rows(d [][]float64) {
	for _, r := range d {
		g.num(r...)
	}
}

func (g *digest) differs(h *digest) error {
	if len(g.vals) != len(h.vals) || len(g.text) != len(h.text) {
		return fmt.Errorf("%d numbers and %d refusals %q, want %d and %d %q", len(h.vals), len(h.text), h.text, len(g.vals), len(g.text), g.text)
	}
	for i := range g.vals {
		if !same(g.vals[i], h.vals[i]) {
			return fmt.Errorf("number %d of the results is %v, want %v", i, h.vals[i], g.vals[i])
		}
	}
	for i := range g.text {
		if g.text[i] != h.text[i] {
			return fmt.Errorf("refusal %q, want %q", h.text[i], g.text[i])
		}
	}
	return nil
}

func seededDense(r *splitmix, m, n int) Dense {
	d := newDense(m, n)
	for i := range d {
		for j := range d[i] {
			d[i][j] = r.norm()
		}
	}
	return d
}

func positiveDefinite(r *splitmix, n int) Dense {
	a := seededDense(r, n, n)
	g := a.mul(a.t())
	for i := range g {
		g[i][i] += float64(n)
		for j := range g[i][:i] {
			g[i][j] = g[j][i]
		}
	}
	return g
}

func (t GoTask) run(c GoCase, sh goShared) (g *digest) {
	g = &digest{}
	defer func() {
		if p := recover(); p != nil {
			g.text = append(g.text, fmt.Sprint(t.Kind, ": ", p))
		}
	}()
	r := &splitmix{t.Seed}
	own := func(m, n int) lin.RealMatrix { return buildMat(t.Rep, seededDense(r, m, n)) }
	ownV := func(n int) lin.RealVector {
		return buildVec([]string{"array", "custom"}[r.intn(2)], seededDense(r, 1, n)[0])
	}
	sq := func() lin.RealMatrix { // square: of its own or shared
		if r.intn(2) == 0 {
			return sh.p
		}
		return own(c.C, c.C)
	}
	spd := func() lin.RealMatrix {
		if r.intn(2) == 0 {
			return sh.p
		}
		return buildMat(t.Rep, positiveDefinite(r, c.C))
	}
	rect := func() lin.RealMatrix {
		if r.intn(2) == 0 {
			return sh.m
		}
		return own(c.R, c.C)
	}
	solve := func(s lin.DecompositionSolver, n int) {
		g.flag(s.IsNonSingular())
		g.vec(s.SolveVector(ownV(n)))
		g.mat(s.SolveMatrix(own(n, 1+r.intn(3))))
		g.mat(s.Inverse())
	}
	switch t.Kind {
	case "arith":
		a := own(c.R, c.C)
		g.mat(a.Add(sh.m), sh.m.Add(a), a.Subtract(sh.m), sh.m.Subtract(a), sh.m.ScalarAdd(r.norm()), sh.m.ScalarMultiply(r.norm()), sh.m.Transpose(), sh.m.Copy(), a.ScalarMultiply(2))
	case "product":
		a, b := own(c.C, 1+r.intn(c.C)), own(1+r.intn(c.R), c.R)
		g.mat(sh.m.Multiply(a), b.Multiply(sh.m), sh.m.PreMultiplyMatrix(b), a.Transpose().Multiply(sh.p), lin.Power(sh.p, r.intn(6)), lin.OuterProduct(sh.v, ownV(c.R)))
	case "operate":
		v := ownV(c.R)
		g.num(sh.m.Operate(seededDense(r, 1, c.C)[0])...)
		g.num(sh.m.PreMultiply(v.ToArray())...)
		g.vec(sh.m.OperateVector(sh.v), sh.m.PreMultiplyVector(v), own(c.R, c.C).OperateVector(sh.v))
	case "read":
		i, j := r.intn(c.R), r.intn(c.C)
		g.rows(sh.m.Data())
		g.num(sh.m.RowAt(i)...)
		g.num(sh.m.ColumnAt(j)...)
		g.vec(sh.m.RowVectorAt(i), sh.m.ColumnVectorAt(j))
		g.mat(sh.m.RowMatrixAt(i), sh.m.ColumnMatrixAt(j), sh.m.SubMatrix(0, i, 0, j), lin.SubMatrix(sh.m, []int{i, 0, i}, []int{j, j, 0}))
		d := newDense(c.R, c.C)
		lin.CopySubMatrix(sh.m, i, c.R-1, j, c.C-1, d)
		lin.CopySubMatrixFromIndices(sh.m, []int{i}, []int{j}, d)
		g.rows(d)
		g.num(lin.MatFrobeniusNorm(sh.m), lin.MatLInfNorm(sh.m), sh.p.Trace(), sh.m.At(i, j))
		cp := sh.m.Copy()
		g.flag(sh.m.Equals(cp))
		cp.SetEntry(i, j, 1e9)
		g.flag(sh.m.Equals(cp))
		g.flag(cp.Equals(sh.m))
	case "walk":
		visit := func(i, j int, v float64) float64 { g.num(v); return v + float64(i-j) }
		a := own(c.R, c.C)
		for _, ord := range walkKinds {
			w := WalkCase{Order: ord, I2: c.R - 1, J2: c.C - 1}
			doWalk(sh.m, w, &recorder{f: visit})
			w.Bounds, w.I, w.J = true, r.intn(c.R), r.intn(c.C)
			doWalk(sh.m, w, &recorder{f: visit})
			w.Update = true
			doWalk(a, w, &recorder{f: visit})
			w.Bounds = false
			doWalk(a, w, &recorder{f: visit})
		}
		g.mat(a)
	case "write":
		a := own(c.R, c.C)
		for k := 0; k < 6; k++ {
			i, j := r.intn(c.R), r.intn(c.C)
			a.SetEntry(i, j, r.norm())
			a.AddToEntry(i, j, r.norm())
			a.MultiplyEntry(j%c.R, i%c.C, r.norm())
			a.SetRow(i, seededDense(r, 1, c.C)[0])
			a.SetColumn(j, seededDense(r, 1, c.R)[0])
			a.SetRowVector(i, sh.v)
			a.SetRowMatrix(c.R-1-i, sh.m.RowMatrixAt(i))
			a.SetSubMatrix(seededDense(r, c.R-i, c.C-j), i, j)
			g.mat(a)
		}
		g.mat(must(lin.NewRealMatrixFromSlices(sh.m.Data())), must(lin.NewRealIdentityMatrix(c.C)))
	case "vector":
		w := ownV(c.C)
		g.vec(w.Add(sh.v), sh.v.Add(w), sh.v.Subtract(w), sh.v.EBEMultiply(w), sh.v.EBEDivide(w), sh.v.Append(r.norm()), sh.v.AppendVector(w), sh.v.SubVector(0, 1+r.intn(c.C)), sh.v.Copy(), lin.UnitVector(sh.v), lin.Projection(w, sh.v), lin.Projection(sh.v, w))
		g.num(lin.VecNorm(sh.v), lin.VecL1Norm(sh.v), lin.VecLInfNorm(sh.v), lin.VecDistance(sh.v, w), lin.VecL1Distance(w, sh.v), lin.VecLInfDistance(w, sh.v), lin.VecDotProduct(sh.v, w), lin.VecCosine(w, sh.v),
			float64(lin.MinIndex(sh.v)), lin.MinValue(sh.v), float64(lin.MaxIndex(sh.v)), lin.MaxValue(sh.v))
		g.num(sh.v.ToArray()...)
		for it := sh.v.Iterator(); it.HasNext(); {
			e := it.Next()
			g.num(float64(e.Index()), e.Value())
		}
		w.Combine(2, r.norm(), sh.v)
		w.MapAdd(r.norm())
		w.Map(math.Abs)
		g.vec(w)
		g.flag(sh.v.Equals(w))
		g.flag(sh.v.Equals(sh.v.Copy()))
	case "diagonal":
		dm := must(lin.NewDiagonalMatrix(seededDense(r, 1, c.C)[0], true))
		g.mat(dm.Multiply(sh.p), sh.m.Multiply(dm), dm.Inverse(), dm.Transpose(), dm.ScalarMultiply(3), must(lin.NewRealMatrixWithDiagonal(dm.DataRef())), sh.p.Add(dm))
		g.vec(dm.OperateVector(sh.v), dm.PreMultiplyVector(sh.v))
		g.flag(dm.IsSingular(0.1))
	case "LU":
		d := must(lin.NewLUDecompositionWithThreshold(sq(), 1e-200))
		g.mat(d.L(), d.U(), d.P())
		g.num(d.Determinant(), float64(d.Pivot()[0]))
		solve(d.Solver(), c.C)
	case "QR":
		d := must(lin.NewQRDecomposition(sq()))
		g.mat(d.Q(), d.R(), d.QT(), d.H())
		solve(d.Solver(), c.C)
	case "RRQR":
		d := must(lin.NewRRQRDecomposition(sq()))
		g.mat(d.Q(), d.R(), d.P())
		g.num(float64(d.Rank(1e-9)))
		solve(d.Solver(), c.C)
	case "Cholesky":
		d := must(lin.NewDefaultCholeskyDecomposition(spd()))
		g.mat(d.L(), d.LT())
		g.num(d.Determinant())
		solve(d.Solver(), c.C)
	case "SVD":
		d := must(lin.NewSingularValueDecomposition(rect()))
		g.mat(d.U(), d.S(), d.VT(), d.Covariance(0))
		g.num(d.SingularValues()...)
		g.num(d.Norm(), d.ConditionNumber(), float64(d.Rank()))
		s := d.Solver()
		g.mat(s.Inverse())
		g.vec(s.SolveVector(ownV(c.R)))
	case "eigen":
		d := must(lin.NewEigenDecomposition(spd()))
		g.mat(d.V(), d.D(), d.SquareRoot())
		g.num(d.RealEigenvalues()...)
		g.num(d.Determinant())
		solve(d.Solver(), c.C)
	case "eigen general":
		d := must(lin.NewEigenDecomposition(own(c.C, c.C)))
		g.mat(d.V(), d.D())
		g.num(d.RealEigenvalues()...)
		g.num(d.ImagEigenvalues()...)
	case "Schur":
		d := must(lin.NewSchurTransformer(sq()))
		g.mat(d.P(), d.T())
	case "Hessenberg":
		d := must(lin.NewHessenbergTransformer(sq()))
		g.mat(d.P(), d.H())
	case "tridiagonal":
		d := must(lin.NewTriDiagonalTransformer(spd()))
		g.mat(d.Q(), d.T())
	case "bidiagonal":
		d := must(lin.NewBiDiagonalTransformer(rect()))
		g.mat(d.U(), d.B(), d.V())
	case "root":
		d := must(lin.NewRectangularCholeskyDecomposition(spd()))
		g.mat(d.RootMatrix())
	case "refused":
		switch r.intn(5) {
		case 0:
			sh.m.At(c.R, r.intn(c.C))
		case 1:
			sh.m.Multiply(own(c.C+1+r.intn(3), 2))
		case 2:
			sh.v.At(-1 - r.intn(5))
		case 3:
			must(lin.NewLUDecomposition(own(c.R, c.R+1)))
		default:
			sh.m.SetRow(0, make([]float64, c.C+1+r.intn(4)))
		}
	default:
		hbug("task %q", t.Kind)
	}
	return g
}

func checkGoroutines(c GoCase, o *Obs) error {
	r := &splitmix{c.Seed}
	sh := goShared{m: buildMat(c.Rep, seededDense(r, c.R, c.C)), p: buildMat(c.Rep, positiveDefinite(r, c.C)), v: buildVec(c.VRep, seededDense(r, 1, c.C)[0])}
	all := func(ts []GoTask) []*digest {
		out := make([]*digest, len(ts))
		for i, t := range ts {
			out[i] = t.run(c, sh)
		}
		return out
	}
	o.NonTrivial(len(c.Go) > 1)
	o.Labelf("%d goroutines", len(c.Go))
	o.LabelIf(c.R > 52 || c.C > 52, "several blocks")
	// Concurrently first: what is set up once, and then only read, is set up here.
	got := make([][]*digest, len(c.Go))
	var start, wg sync.WaitGroup
	start.Add(1)
	var bug interface{}
	var mu sync.Mutex
	for k := range c.Go {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					bug = p
					mu.Unlock()
				}
			}()
			start.Wait()
			got[k] = all(c.Go[k])
		}(k)
	}
	start.Done()
	wg.Wait()
	if bug != nil {
		panic(bug)
	}
	for k := range c.Go {
		want := all(c.Go[k])
		for i, t := range c.Go[k] {
			o.Label(t.Kind)
			if err := want[i].differs(got[k][i]); err != nil {
				return fmt.Errorf("task %d (%s) of goroutine %d, run beside others and then alone: %v", i, t.Kind, k, err)
			}
		}
	}
	return nil
}

func init() {
	Register("C30", "goroutines", "two goroutines or more", 400, 1200,
		func(t *rapid.T) GoCase {
			c := GoCase{R: 1 + pick(t, 9, "r"), C: 1 + pick(t, 9, "c"), Seed: rapid.Uint64().Draw(t, "seed"),
				Rep: genRep(t, denseReps, "rep"), VRep: genRep(t, vecReps, "vrep")}
			if pct(t, 6, "large") {
				c.R, c.C = 50+pick(t, 20, "r2"), 50+pick(t, 20, "c2")
			}
			one := ""
			if pct(t, 50, "one kind") {
				one = oneOf(t, goKinds, "kind")
			}
			for k, n := 0, 2+pick(t, 3, "go"); k < n; k++ {
				var ts []GoTask
				for i, l := 0, 1+pick(t, 4, "len"); i < l; i++ {
					kind := one
					if kind == "" {
						kind = oneOf(t, goKinds, "task")
					}
					ts = append(ts, GoTask{Kind: kind, Rep: genRep(t, denseReps, "trep"), Seed: rapid.Uint64().Draw(t, "tseed")})
				}
				c.Go = append(c.Go, ts)
			}
			return c
		}, checkGoroutines)
}
