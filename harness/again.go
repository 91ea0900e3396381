package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// AgainOp writes to one of the objects, or asks everything of them again.
type AgainOp struct {
	On string `json:"on"` // A, B, V, W; "" to ask
	Op RefOp  `json:"op"`
}

// AgainCase: two matrices and two vectors that are asked, written to and asked
// again. What is answered depends on what they hold at that time alone: the
// same is asked of fresh objects of the same kind that hold the same entries.
type AgainCase struct {
	Prop    string    `json:"prop"`
	Dec     string    `json:"dec,omitempty"`
	A       Mat       `json:"a"`
	B       Mat       `json:"b"`
	V       Vec       `json:"v"`
	W       Vec       `json:"w"`
	SPD     bool      `json:"spd,omitempty"` // A starts as A*At + a multiple of the identity, and stays symmetric
	Default bool      `json:"default,omitempty"`
	Only    int       `json:"only,omitempty"` // ask this question alone
	Ops     []AgainOp `json:"ops"`
}

type againEnv struct {
	a, b   lin.RealMatrix
	v, w   lin.RealVector
	va, wa *lin.ArrayRealVector // what is behind v and w
}

func againVec(rep string, s []float64) (lin.RealVector, *lin.ArrayRealVector) {
	a := must(lin.NewArrayRealVector(s, true))
	if rep == "custom" {
		return customVector{a}, a
	}
	return a, a
}

func (c AgainCase) open() (e againEnv) {
	d := c.A.dense()
	if c.SPD {
		g := d.mul(d.t())
		for i := range g {
			g[i][i] += float64(40 * len(g))
		}
		d = g
	}
	e.a, e.b = buildMat(c.A.Rep, d), buildMat(c.B.Rep, c.B.dense())
	e.v, e.va = againVec(c.V.Rep, c.V.vals())
	e.w, e.wa = againVec(c.W.Rep, c.W.vals())
	return e
}

// afresh builds the objects anew, from their entries as they are.
func (c AgainCase) afresh(e againEnv) (f againEnv) {
	f.a, f.b = buildMat(c.A.Rep, toDense(e.a)), buildMat(c.B.Rep, toDense(e.b))
	f.v, f.va = againVec(c.V.Rep, toSlice(e.v))
	f.w, f.wa = againVec(c.W.Rep, toSlice(e.w))
	return f
}

// questions lists what a property speaks of, as readings of the objects.
func (c AgainCase) questions(e againEnv) (rs []reading) {
	a, b, v, w := e.a, e.b, e.v, e.w
	r, k := a.RowDimension(), a.ColumnDimension()
	q := func(name string, f func() interface{}) { rs = append(rs, reads(name, f)) }
	flat := func(d [][]float64) (out []float64) {
		for _, r := range d {
			out = append(append(out, r...), float64(len(r)))
		}
		return out
	}
	switch c.Prop {
	case "C01":
		q("Data", func() interface{} { return flat(a.Data()) })
		q("Trace", func() interface{} { return a.Trace() })
		q("Copy", func() interface{} { return a.Copy() })
		q("Transpose", func() interface{} { return a.Transpose() })
		for _, i := range []int{0, r - 1, r / 2} {
			i := i
			q("RowAt", func() interface{} { return a.RowAt(i) })
			q("RowVectorAt", func() interface{} { return a.RowVectorAt(i) })
			q("RowMatrixAt", func() interface{} { return a.RowMatrixAt(i) })
		}
		for _, j := range []int{0, k - 1, k / 2} {
			j := j
			q("ColumnAt", func() interface{} { return a.ColumnAt(j) })
			q("ColumnVectorAt", func() interface{} { return a.ColumnVectorAt(j) })
			q("ColumnMatrixAt", func() interface{} { return a.ColumnMatrixAt(j) })
		}
	case "C02":
		q("Add", func() interface{} { return a.Add(b) })
		q("Subtract", func() interface{} { return a.Subtract(b) })
		q("Add the other way", func() interface{} { return b.Add(a) })
		q("Subtract the other way", func() interface{} { return b.Subtract(a) })
		q("ScalarAdd", func() interface{} { return a.ScalarAdd(3) })
		q("ScalarMultiply", func() interface{} { return a.ScalarMultiply(3) })
	case "C03":
		q("Multiply", func() interface{} { return a.Multiply(b) })
		q("Multiply the other way", func() interface{} { return b.Multiply(a) })
		q("Multiply by itself", func() interface{} { return a.Multiply(a) })
		q("PreMultiplyMatrix", func() interface{} { return a.PreMultiplyMatrix(b) })
		q("Operate", func() interface{} { return a.Operate(v.ToArray()) })
		q("OperateVector", func() interface{} { return a.OperateVector(v) })
		q("PreMultiply", func() interface{} { return a.PreMultiply(w.ToArray()) })
		q("PreMultiplyVector", func() interface{} { return a.PreMultiplyVector(w) })
		q("Power", func() interface{} { return lin.Power(a, 3) })
		q("OuterProduct", func() interface{} { return lin.OuterProduct(v, w) })
	case "C05":
		walk := func(f func(p lin.RealMatrixPreservingVisitor) float64) interface{} {
			rec := &recorder{}
			f(preserving{rec})
			out := []float64{}
			for _, x := range rec.log {
				out = append(out, float64(x.i), float64(x.j), x.v)
			}
			return out
		}
		q("WalkInRowOrder", func() interface{} { return walk(a.WalkInRowOrder) })
		q("WalkInColumnOrder", func() interface{} { return walk(a.WalkInColumnOrder) })
		q("WalkInOptimizedOrder", func() interface{} { return walk(a.WalkInOptimizedOrder) })
		q("WalkInRowOrderBounded", func() interface{} {
			return walk(func(p lin.RealMatrixPreservingVisitor) float64 {
				return a.WalkInRowOrderBounded(p, r/2, r-1, 0, k/2)
			})
		})
		q("WalkInColumnOrderBounded", func() interface{} {
			return walk(func(p lin.RealMatrixPreservingVisitor) float64 {
				return a.WalkInColumnOrderBounded(p, r/2, r-1, 0, k/2)
			})
		})
		q("WalkInOptimizedOrderBounded", func() interface{} {
			return walk(func(p lin.RealMatrixPreservingVisitor) float64 {
				return a.WalkInOptimizedOrderBounded(p, r/2, r-1, 0, k/2)
			})
		})
	case "C08":
		q("ToArray", func() interface{} { return v.ToArray() })
		q("Copy", func() interface{} { return v.Copy() })
		q("IsNaN", func() interface{} { return v.IsNaN() })
		q("IsInf", func() interface{} { return v.IsInf() })
		q("Append", func() interface{} { return v.Append(3) })
		q("AppendVector", func() interface{} { return v.AppendVector(w) })
		q("SubVector", func() interface{} { return v.SubVector(v.Dimension()/2, v.Dimension()-v.Dimension()/2) })
		q("Add", func() interface{} { return v.Add(w) })
		q("Subtract", func() interface{} { return v.Subtract(w) })
		q("EBEMultiply", func() interface{} { return v.EBEMultiply(w) })
		q("EBEDivide", func() interface{} { return v.EBEDivide(w) })
		q("Iterator", func() interface{} {
			out := []float64{}
			for it := v.Iterator(); it.HasNext(); {
				x := it.Next()
				out = append(out, float64(x.Index()), x.Value())
			}
			return out
		})
	case "C09":
		q("VecNorm", func() interface{} { return lin.VecNorm(v) })
		q("VecL1Norm", func() interface{} { return lin.VecL1Norm(v) })
		q("VecLInfNorm", func() interface{} { return lin.VecLInfNorm(v) })
		q("VecDistance", func() interface{} { return lin.VecDistance(v, w) })
		q("VecL1Distance", func() interface{} { return lin.VecL1Distance(v, w) })
		q("VecLInfDistance", func() interface{} { return lin.VecLInfDistance(v, w) })
		q("VecDotProduct", func() interface{} { return lin.VecDotProduct(v, w) })
		q("VecCosine", func() interface{} { return lin.VecCosine(v, w) })
		q("Projection", func() interface{} { return lin.Projection(v, w) })
		q("UnitVector", func() interface{} { return lin.UnitVector(v) })
		q("MinIndex", func() interface{} { return lin.MinIndex(v) })
		q("MinValue", func() interface{} { return lin.MinValue(v) })
		q("MaxIndex", func() interface{} { return lin.MaxIndex(v) })
		q("MaxValue", func() interface{} { return lin.MaxValue(v) })
	case "C25":
		copied := func(f func(dst [][]float64), p, q int) interface{} {
			dst := newDense(p, q)
			f(dst)
			return flat(dst)
		}
		q("SubMatrix", func() interface{} { return a.SubMatrix(r/2, r-1, 0, k/2) })
		q("CopySubMatrix", func() interface{} {
			return copied(func(dst [][]float64) { lin.CopySubMatrix(a, 0, r/2, k/2, k-1, dst) }, r/2+1, k-k/2)
		})
		q("SubMatrix of selected", func() interface{} { return lin.SubMatrix(a, []int{r - 1, 0, 0}, []int{k / 2, k - 1}) })
		q("CopySubMatrixFromIndices", func() interface{} {
			return copied(func(dst [][]float64) { lin.CopySubMatrixFromIndices(a, []int{r - 1, 0, 0}, []int{k / 2, k - 1}, dst) }, 3, 2)
		})
		q("MatLInfNorm", func() interface{} { return lin.MatLInfNorm(a) })
		q("MatFrobeniusNorm", func() interface{} { return lin.MatFrobeniusNorm(a) })
		q("Trace", func() interface{} { return a.Trace() })
	case "C26":
		d := a.(*lin.DiagonalMatrix)
		q("DataRef", func() interface{} { return append([]float64{}, d.DataRef()...) })
		q("Inverse", func() interface{} { return d.Inverse() })
		for _, x := range []float64{0, 1, 5} {
			x := x
			q("IsSingular", func() interface{} { return d.IsSingular(x) })
			q("InverseWithThreshold", func() interface{} { return d.InverseWithThreshold(x) })
		}
		q("Multiply", func() interface{} { return a.Multiply(b) })
		q("Add", func() interface{} { return a.Add(b) })
		q("Subtract", func() interface{} { return a.Subtract(b) })
		q("Operate", func() interface{} { return a.Operate(v.ToArray()) })
		q("PreMultiplyVector", func() interface{} { return a.PreMultiplyVector(w) })
		q("ScalarMultiply", func() interface{} { return a.ScalarMultiply(3) })
		q("Transpose", func() interface{} { return a.Transpose() })
		q("Trace", func() interface{} { return a.Trace() })
		q("Data", func() interface{} { return flat(a.Data()) })
	case "C27":
		q("Equals", func() interface{} { return a.Equals(b) })
		q("Equals the other way", func() interface{} { return b.Equals(a) })
		q("Equals itself", func() interface{} { return a.Equals(a) })
		q("Equals of vectors", func() interface{} { return e.va.Equals(w) })
		q("Equals of vectors the other way", func() interface{} { return e.wa.Equals(v) })
	default: // decompositions of A, and what its solver makes of B and V
		sc := SnapCase{Dec: c.Dec, Vec: "array", Default: c.Default}
		sc.B = Mat{Rep: "array", R: r, C: b.ColumnDimension(), D: []F{}}
		for i := 0; i < r; i++ {
			for j := 0; j < b.ColumnDimension(); j++ {
				x := 0.
				if i < b.RowDimension() {
					x = b.At(i, j)
				}
				sc.B.D = append(sc.B.D, F(x))
			}
		}
		for _, x := range sc.observe(a, toDense(a)) {
			if againAbout(c.Prop, x.name) {
				rs = append(rs, x)
			}
		}
	}
	return rs
}

// againAbout keeps to what the property is about.
func againAbout(prop, name string) bool {
	solver := len(name) > 6 && (name[:6] == "solver" || name[:6] == "new so")
	switch prop {
	case "C21", "C22", "C23":
		return solver || name == "constructor"
	case "C28":
		return name == "Determinant" || name == "constructor"
	case "C24", "C31":
		return true
	}
	return !solver
}

var againDecs = map[string][]string{
	"C10": {"LU"}, "C11": {"Cholesky"}, "C12": {"QR"}, "C13": {"RRQR"}, "C14": {"root"}, "C15": {"SVD"}, "C16": {"SVD"},
	"C17": {"eigen", "eigentri"}, "C18": {"eigen"}, "C19": {"Hessenberg", "tridiagonal", "bidiagonal"}, "C20": {"Schur"},
	"C21": {"LU", "QR", "RRQR", "SVD", "Cholesky", "eigen"}, "C22": {"QR", "RRQR", "SVD"}, "C23": {"LU", "QR", "RRQR", "SVD", "Cholesky", "eigen"},
	"C24": {"LU", "QR", "RRQR", "Cholesky", "root", "SVD", "eigen", "eigentri", "Hessenberg", "tridiagonal", "bidiagonal", "Schur"},
	"C28": {"LU", "Cholesky", "eigen"},
}

func genAgain(prop string) func(t *rapid.T) AgainCase {
	return func(t *rapid.T) AgainCase {
		c := AgainCase{Prop: prop}
		dec := againDecs[prop] != nil
		vec := prop == "C08" || prop == "C09"
		n := 1 + pick(t, 7, "n")
		k := n
		if pct(t, 6, "big") && !dec && !vec && prop != "C03" {
			n = 51 + pick(t, 5, "n2")
			k = n
		}
		if prop == "C22" || (prop != "C26" && prop != "C27" && pct(t, 20, "oblong")) {
			k = 1 + pick(t, 7, "k")
		}
		reps := append([]string{"default"}, denseReps...)
		if dec {
			c.Dec = oneOf(t, againDecs[prop], "dec")
			c.Default = pct(t, 50, "default")
			c.SPD = prop == "C11" || prop == "C14" || prop == "C17" || c.Dec == "Cholesky" || c.Dec == "root" || c.Dec == "tridiagonal" || c.Dec == "eigentri" || pct(t, 25, "spd")
			if c.SPD {
				k = n
			}
		}
		if prop == "C26" {
			reps = []string{"diag"}
		} else if n == k && !c.SPD && pct(t, 15, "diag") {
			reps = []string{"diag"}
		}
		dist := oneOf(t, []string{dInt, dTiny}, "dist")
		c.A = genMat(t, oneOf(t, reps, "rep"), n, k, dist, "a")
		switch prop {
		case "C02", "C27", "C26", "C03":
			c.B = genMat(t, oneOf(t, append([]string{"default", c.A.Rep, c.A.Rep}, denseReps...), "rep2"), n, k, dist, "b")
			if prop == "C27" && pct(t, 70, "equal") && (c.B.Rep != "diag") == (c.A.Rep != "diag") {
				c.B.D, c.B.Dist, c.B.Seed = append([]F(nil), c.A.D...), c.A.Dist, c.A.Seed
			}
		default:
			c.B = genMat(t, "array", n, 1+pick(t, 3, "rhs"), dist, "b")
		}
		nv, nw := k, n
		if vec || prop == "C27" {
			nw = nv
		}
		c.V, c.W = genVec(t, oneOf(t, vecReps, "vrep"), nv, dist, "v"), genVec(t, oneOf(t, vecReps, "wrep"), nw, dist, "w")
		if prop == "C27" && pct(t, 70, "vequal") {
			c.W.D, c.W.Dist, c.W.Seed = append([]F(nil), c.V.D...), c.V.Dist, c.V.Seed
		}
		if pct(t, 50, "one") {
			c.Only = 1 + pick(t, 24, "only")
		}
		objs := []string{"A", "A", "B", "V", "W"}
		if vec {
			objs = []string{"V", "V", "W"}
		}
		if pct(t, 85, "ask first") {
			c.Ops = append(c.Ops, AgainOp{})
		}
		for s := 1 + pick(t, 3, "steps"); s > 0; s-- {
			on := oneOf(t, objs, "on")
			var op RefOp
			x := F(float64(1 + pick(t, 40, "x")))
			if on == "V" || on == "W" {
				m := nv
				if on == "W" {
					m = nw
				}
				i, i2 := genRange(t, m, "i")
				op = RefOp{oneOf(t, refVecOps[:len(refVecOps)-3], "op"), i, 0, i2 - i + 1, 0, x}
			} else {
				m := c.A
				if on == "B" {
					m = c.B
				}
				i, i2 := genRange(t, m.R, "i")
				j, j2 := genRange(t, m.C, "j")
				kinds := refMatOps[:len(refMatOps)-3]
				switch {
				case on == "A" && c.SPD:
					kinds = []string{"mirrored", "scale", "diagonal"}
				case pct(t, 25, "whole"):
					kinds = []string{"scale", "negate", "rotate"}
				}
				op = RefOp{oneOf(t, kinds, "op"), i, j, i2 - i + 1, j2 - j + 1, x}
			}
			c.Ops = append(c.Ops, AgainOp{on, op})
			if s == 1 || pct(t, 70, "ask") {
				c.Ops = append(c.Ops, AgainOp{})
			}
		}
		return c
	}
}

// againMatOp makes the writes of refMatOp, and some that keep a matrix
// symmetric or its norm.
func againMatOp(m lin.RealMatrix, op RefOp) {
	d, isDiag := m, false
	if _, ok := d.(*lin.DiagonalMatrix); ok {
		isDiag = true
	}
	x := float64(op.X)
	r, k := m.RowDimension(), m.ColumnDimension()
	each := func(f func(i, j int, y float64) float64) {
		m.WalkInUpdateOptimizedOrder(changing{&recorder{f: f}})
	}
	switch op.K {
	case "mirrored":
		if op.I != op.J {
			m.SetEntry(op.I, op.J, x/8)
			m.SetEntry(op.J, op.I, x/8)
		}
	case "diagonal":
		m.AddToEntry(op.I, op.I, x)
	case "scale":
		each(func(i, j int, y float64) float64 { return y * (1 + x) })
	case "negate":
		for j := 0; j < k; j++ {
			if !isDiag || j == op.I {
				m.MultiplyEntry(op.I, j, -1)
			}
		}
	case "rotate":
		if isDiag {
			s := m.(*lin.DiagonalMatrix).Data()
			for i := range s {
				m.SetEntry(i, i, s[(i+1)%r][(i+1)%r])
			}
			return
		}
		rows := m.Data()
		for i := range rows {
			m.SetRow(i, rows[(i+1)%r])
		}
	default:
		refMatOp(m, op, nil, isDiag)
	}
}

func checkAgain(c AgainCase, o *Obs) error {
	e := c.open()
	o.Label(c.Prop + " " + c.Dec)
	writes, asked := 0, 0
	// what is asked of fresh objects is asked when all else is done, so that
	// nothing comes between the questions
	type held struct {
		step, writes int
		rs           []reading
		got, twice   [][]float64
		fresh        againEnv
	}
	var answers []held
	for s, op := range c.Ops {
		switch op.On {
		case "A":
			againMatOp(e.a, op.Op)
		case "B":
			againMatOp(e.b, op.Op)
		case "V":
			refVecOp(e.va, op.Op, nil, e.va.Dimension())
		case "W":
			refVecOp(e.wa, op.Op, nil, e.wa.Dimension())
		default:
			asked++
			h := held{step: s, writes: writes, rs: c.questions(e), fresh: c.afresh(e)}
			for i, r := range h.rs {
				if c.Only > 0 && i != c.Only%len(h.rs) {
					h.got, h.twice = append(h.got, nil), append(h.twice, nil)
					continue
				}
				h.got = append(h.got, r.get())
				h.twice = append(h.twice, r.get())
			}
			answers = append(answers, h)
			continue
		}
		o.Label(op.Op.K)
		writes++
	}
	for _, h := range answers {
		fresh := c.questions(h.fresh)
		if len(fresh) != len(h.rs) {
			return fmt.Errorf("step %d: accepted after %d writes, refused of a fresh object with the same entries, or the other way round", h.step, h.writes)
		}
		for i, r := range fresh {
			if h.got[i] == nil {
				continue
			}
			want := r.get()
			if err := sameReading(fmt.Sprintf("step %d, after %d writes: %s against a fresh object with the same entries", h.step, h.writes, r.name), h.got[i], want); err != nil {
				return err
			}
			if err := sameReading(fmt.Sprintf("step %d, after %d writes: %s asked a second time", h.step, h.writes, r.name), h.twice[i], want); err != nil {
				return err
			}
		}
	}
	o.NonTrivial(writes > 0 && asked > 1)
	return nil
}

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C05", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28"} {
		quick, thorough := 20000, 400000
		if f := quickFactor[p]; f > 0 {
			quick = 40000 / f
		}
		Register(p, "asked-again", "what is asked of matrices and vectors before and after writes to them is what fresh objects with the same entries answer, the second time too; non-trivial: asked before and after a write",
			quick, thorough, genAgain(p), checkAgain)
	}
}
