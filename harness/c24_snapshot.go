package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type SnapCase struct {
	Dec     string `json:"dec"`
	A       LA     `json:"a"`
	S       *Sym   `json:"s,omitempty"`
	Rep2    string `json:"rep2"`
	B       Mat    `json:"b"`
	Vec     string `json:"vec"`
	History []int  `json:"history"`
	Default bool   `json:"default,omitempty"` // default thresholds
}

// reading is one observation of a decomposition, flattened; a refusal is
// observed as its status.
type reading struct {
	name string
	get  func() []float64
	hold func() func() []float64 // hand it out now, read it later
}

func refusalCode(p interface{}) []float64 {
	st, lib := rejection(p)
	if !lib {
		panic(p)
	}
	return []float64{-1e300, float64(st)}
}

func reads(name string, f func() interface{}) reading {
	return reading{name: name, hold: holding(f), get: func() (out []float64) {
		defer func() {
			if r := recover(); r != nil {
				out = refusalCode(r)
			}
		}()
		switch v := f().(type) {
		case lin.RealMatrix:
			if v == nil {
				return []float64{-2e300}
			}
			out = []float64{float64(v.RowDimension()), float64(v.ColumnDimension())}
			for _, r := range toDense(v) {
				out = append(out, r...)
			}
		case lin.RealVector:
			out = toSlice(v)
		case []float64:
			out = append(out, v...)
			for i := range v { // what is returned is a copy
				v[i] = -77
			}
		case []int:
			for i := range v {
				out = append(out, float64(v[i]))
				v[i] = -77
			}
		case float64:
			out = []float64{v}
		case int:
			out = []float64{float64(v)}
		case bool:
			if v {
				out = []float64{1}
			} else {
				out = []float64{0}
			}
		case nil:
			return []float64{-2e300}
		default:
			hbug("reading %T", v)
		}
		return out
	}}
}

// solverReadings solve freshly built right-hand sides, which must survive, and
// spoil what they are given back.
func solverReadings(get func() lin.DecompositionSolver, c SnapCase, rows int) []reading {
	b := c.B.dense()
	if b.rows() != rows {
		hbug("right-hand side has %d rows, want %d", b.rows(), rows)
	}
	var shared lin.DecompositionSolver // one solver kept for the whole history
	pick := func(fresh bool) lin.DecompositionSolver {
		if fresh {
			return get()
		}
		if shared == nil {
			shared = get()
		}
		return shared
	}
	spoil := func(m lin.RealMatrix) []float64 {
		out := []float64{float64(m.RowDimension()), float64(m.ColumnDimension())}
		for _, r := range toDense(m) {
			out = append(out, r...)
		}
		for i := 0; i < m.RowDimension(); i++ {
			for j := 0; j < m.ColumnDimension(); j++ {
				m.SetEntry(i, j, -77)
			}
		}
		return out
	}
	var rs []reading
	for _, fresh := range []bool{false, true} {
		fresh := fresh
		tag := map[bool]string{false: "solver", true: "new solver"}[fresh]
		rs = append(rs,
			reads(tag+" IsNonSingular", func() interface{} { return pick(fresh).IsNonSingular() }),
			reads(tag+" SolveMatrix", func() interface{} {
				bm := buildMat(c.B.Rep, b)
				x := spoil(pick(fresh).SolveMatrix(bm))
				if err := matchModel("right-hand side after solving", bm, b); err != nil {
					panic(err.Error())
				}
				return x
			}),
			reads(tag+" SolveVector", func() interface{} {
				bv := buildVec(c.Vec, col(b, 0))
				x := pick(fresh).SolveVector(bv)
				if err := matchVec("right-hand side after solving", bv, col(b, 0)); err != nil {
					panic(err.Error())
				}
				out := toSlice(x)
				for i := 0; i < x.Dimension(); i++ {
					x.SetEntry(i, -77)
				}
				return out
			}),
			reads(tag+" Inverse", func() interface{} { return spoil(pick(fresh).Inverse()) }))
		// what is held are the solutions themselves, and another right-hand
		// side is solved before they are read
		solved := func(f func(lin.DecompositionSolver) interface{}) func() func() []float64 {
			return holding(func() interface{} {
				s := pick(fresh)
				x, other := f(s), b.scale(3)
				s.SolveMatrix(buildMat(c.B.Rep, other))
				s.SolveVector(buildVec(c.Vec, col(other, 0)))
				return x
			})
		}
		last := len(rs) - 1
		rs[last].hold = solved(func(s lin.DecompositionSolver) interface{} { return s.Inverse() })
		rs[last-1].hold = solved(func(s lin.DecompositionSolver) interface{} { return s.SolveVector(buildVec(c.Vec, col(b, 0))) })
		rs[last-2].hold = solved(func(s lin.DecompositionSolver) interface{} { return s.SolveMatrix(buildMat(c.B.Rep, b)) })
	}
	return rs
}

func (c SnapCase) input() (lin.RealMatrix, Dense) {
	if c.S != nil {
		return c.S.build()
	}
	return c.A.build()
}

// observe lists everything one decomposition reports; refused constructions
// have the refusal as their only reading.
func (c SnapCase) observe(a lin.RealMatrix, d Dense) (rs []reading) {
	defer func() {
		if r := recover(); r != nil {
			code := refusalCode(r)
			rs = []reading{{name: "constructor", get: func() []float64 { return code }}}
		}
	}()
	mat := func(name string, f func() lin.RealMatrix) {
		rs = append(rs, reads(name, func() interface{} { return f() }))
	}
	val := func(name string, f func() interface{}) { rs = append(rs, reads(name, f)) }
	ok := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	m, n := d.rows(), d.cols()
	fro, big := d.fro(), d.maxAbs()
	lu, qr, root, rank := 1e-13*fro, 1e-13*fro, 1e-10*big, 1e-9*fro
	if c.Default {
		lu, qr, root, rank = 1e-11, 0, 0, 1e-9
	}
	switch c.Dec {
	case "LU":
		x, err := lin.NewLUDecompositionWithThreshold(a, lu)
		if c.Default {
			x, err = lin.NewLUDecomposition(a)
		}
		ok(err)
		mat("L", x.L)
		mat("U", x.U)
		mat("P", x.P)
		val("Pivot", func() interface{} { return x.Pivot() })
		val("Determinant", func() interface{} { return x.Determinant() })
		rs = append(rs, solverReadings(x.Solver, c, m)...)
	case "QR":
		x, err := lin.NewQRDecompositionWithThreshold(a, qr)
		if c.Default {
			x, err = lin.NewQRDecomposition(a)
		}
		ok(err)
		mat("Q", x.Q)
		mat("QT", x.QT)
		mat("R", x.R)
		mat("H", x.H)
		rs = append(rs, solverReadings(x.Solver, c, m)...)
	case "RRQR":
		x, err := lin.NewRRQRDecompositionWithThreshold(a, qr)
		if c.Default {
			x, err = lin.NewRRQRDecomposition(a)
		}
		ok(err)
		mat("Q", x.Q)
		mat("QT", x.QT)
		mat("R", x.R)
		mat("H", x.H)
		mat("P", x.P)
		val("Rank", func() interface{} { return x.Rank(rank) })
		rs = append(rs, solverReadings(x.Solver, c, m)...)
	case "Cholesky":
		x, err := lin.NewCholeskyDecomposition(a, 1e-15, lu)
		if c.Default {
			x, err = lin.NewDefaultCholeskyDecomposition(a)
		}
		ok(err)
		mat("L", x.L)
		mat("LT", x.LT)
		val("Determinant", func() interface{} { return x.Determinant() })
		rs = append(rs, solverReadings(x.Solver, c, m)...)
	case "root":
		x, err := lin.NewRectangularCholeskyDecompositionWithThreshold(a, root)
		if c.Default {
			x, err = lin.NewRectangularCholeskyDecomposition(a)
		}
		ok(err)
		mat("RootMatrix", x.RootMatrix)
		val("Rank", func() interface{} { return x.Rank() })
	case "SVD":
		x, err := lin.NewSingularValueDecomposition(a)
		ok(err)
		mat("U", x.U)
		mat("UT", x.UT)
		mat("S", x.S)
		mat("V", x.V)
		mat("VT", x.VT)
		val("SingularValues", func() interface{} { return x.SingularValues() })
		val("Norm", func() interface{} { return x.Norm() })
		val("ConditionNumber", func() interface{} { return x.ConditionNumber() })
		val("InverseConditionNumber", func() interface{} { return x.InverseConditionNumber() })
		val("Rank", func() interface{} { return x.Rank() })
		mat("Covariance", func() lin.RealMatrix { return x.Covariance(1e-3 * x.Norm()) })
		rs = append(rs, solverReadings(x.Solver, c, m)...)
	case "eigen", "eigentri":
		var x *lin.EigenDecomposition
		var err error
		if c.Dec == "eigen" {
			x, err = lin.NewEigenDecomposition(a)
		} else {
			main, sec := make([]float64, n), make([]float64, n-1)
			for i := range main {
				main[i] = d[i][i]
				if i > 0 {
					sec[i-1] = d[i][i-1]
				}
			}
			x, err = lin.NewEigenDecompositionFromTridiagonal(main, sec)
			for i := range main {
				main[i] = 77
				if i > 0 {
					sec[i-1] = 77
				}
			}
		}
		ok(err)
		mat("V", x.V)
		mat("VT", x.VT)
		mat("D", x.D)
		val("HasComplexEigenvalues", func() interface{} { return x.HasComplexEigenvalues() })
		val("RealEigenvalues", func() interface{} { return x.RealEigenvalues() })
		val("ImagEigenvalues", func() interface{} { return x.ImagEigenvalues() })
		val("Determinant", func() interface{} { return x.Determinant() })
		k := int(c.B.Seed) % n
		val("RealEigenvalueAt", func() interface{} { return x.RealEigenvalueAt(k) })
		val("ImagEigenvalue", func() interface{} { return x.ImagEigenvalue(k) })
		val("EigenvectorAt", func() interface{} {
			v := x.EigenvectorAt(k)
			out := toSlice(v)
			for i := 0; i < v.Dimension(); i++ {
				v.SetEntry(i, -77)
			}
			return out
		})
		mat("SquareRoot", x.SquareRoot)
		rs = append(rs, solverReadings(x.Solver, c, n)...)
	case "Hessenberg":
		x, err := lin.NewHessenbergTransformer(a)
		ok(err)
		mat("P", x.P)
		mat("PT", x.PT)
		mat("H", x.H)
	case "tridiagonal":
		x, err := lin.NewTriDiagonalTransformer(a)
		ok(err)
		mat("Q", x.Q)
		mat("QT", x.QT)
		mat("T", x.T)
	case "bidiagonal":
		x, err := lin.NewBiDiagonalTransformer(a)
		ok(err)
		mat("U", x.U)
		mat("B", x.B)
		mat("V", x.V)
		val("IsUpperBiDiagonal", func() interface{} { return x.IsUpperBiDiagonal() })
	case "Schur":
		x, err := lin.NewSchurTransformer(a)
		ok(err)
		mat("P", x.P)
		mat("PT", x.PT)
		mat("T", x.T)
	default:
		hbug("decomposition %q", c.Dec)
	}
	return rs
}

func sameReading(what string, got, want []float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d values, want %d", what, len(got), len(want))
	}
	for i := range want {
		if !same(got[i], want[i]) {
			return fmt.Errorf("%s: value %d is %v, want %v", what, i, got[i], want[i])
		}
	}
	return nil
}

func checkSnapshot(c SnapCase, o *Obs) error {
	a, d := c.input()
	o.Label(c.Dec)
	o.LabelIf(maxi(d.rows(), d.cols()) > 50, "large")
	rs := c.observe(a, d)
	if err := matchModel("the matrix after its decomposition", a, d); err != nil {
		return err
	}
	// the reference: each observation is the first of a decomposition of the
	// same matrix in another representation
	var ref [][]float64
	other := buildMat(c.Rep2, d)
	refs := c.observe(other, d)
	if len(refs) != len(rs) {
		return fmt.Errorf("accepted as %T, refused as %T, or the other way round", a, other)
	}
	for i := range refs {
		ref = append(ref, nil)
		ref[i] = refs[i].get()
	}
	if err := matchModel("the matrix after everything was read", other, d); err != nil {
		return err
	}
	o.LabelIf(rs[0].name == "constructor", "refused")
	o.NonTrivial(rs[0].name != "constructor" && len(d) > 1 && len(c.History) > 2)
	// another decomposition of the same kind and shape, of a matrix turned by
	// half a turn, that is made and read before the first is
	turned := d.clone()
	for i := range d {
		for j := range d[i] {
			turned[i][j] = d[len(d)-1-i][len(d[i])-1-j]
		}
	}
	var decoys []reading
	if rs[0].name != "constructor" && len(c.History)%2 == 1 {
		decoys = c.observe(buildMat(c.representation(), turned), turned)
		for _, r := range decoys {
			r.get()
		}
		o.Label("decoy")
	}
	// now spoil the matrix
	for i := range d {
		for j := range d[i] {
			if c.representation() == "diag" && i != j {
				continue
			}
			a.SetEntry(i, j, math.Inf(1-2*((i+j)%2)))
		}
	}
	var past []string
	for _, h := range c.History {
		r := rs[h%len(rs)]
		past = append(past, r.name)
		got := r.get()
		if err := sameReading(fmt.Sprintf("%s: %s after %v", c.Dec, r.name, past[:len(past)-1]), got, ref[h%len(rs)]); err != nil {
			return err
		}
		o.LabelIf(len(got) == 2 && got[0] == -1e300, "reading refused")
	}
	if rs[0].name == "constructor" {
		return nil
	}
	// everything a decomposition hands out, held together and read last to
	// first only after all of it was handed out
	var keep []kept
	for i, r := range rs {
		if r.hold == nil {
			continue
		}
		for range [2]struct{}{} {
			if f := r.hold(); f != nil {
				keep = append(keep, kept{r.name, f, ref[i]})
			}
		}
	}
	for i := len(keep) - 1; i >= 0; i-- {
		if err := sameReading(c.Dec+": "+keep[i].name+", held while everything else was handed out", keep[i].get(), keep[i].want); err != nil {
			return err
		}
	}
	o.LabelIf(len(keep) > 2, "held")
	return nil
}

type kept struct {
	name string
	get  func() []float64
	want []float64
}

// holding asks for a matrix or a vector and reads it only when the function
// it returns is called; nil when there is nothing to hold.
func holding(f func() interface{}) func() func() []float64 {
	return func() (out func() []float64) {
		defer func() {
			if r := recover(); r != nil {
				refusalCode(r)
				out = nil
			}
		}()
		switch v := f().(type) {
		case lin.RealMatrix:
			return func() []float64 {
				out := []float64{float64(v.RowDimension()), float64(v.ColumnDimension())}
				for _, r := range toDense(v) {
					out = append(out, r...)
				}
				return out
			}
		case lin.RealVector:
			return func() []float64 { return toSlice(v) }
		case []float64:
			return func() []float64 { return v }
		case []int:
			return func() []float64 {
				var out []float64
				for i := range v {
					out = append(out, float64(v[i]))
				}
				return out
			}
		}
		return nil
	}
}

func (c SnapCase) representation() string {
	if c.S != nil {
		return c.S.Rep
	}
	return c.A.Rep
}

var snapDecs = []string{"LU", "QR", "RRQR", "Cholesky", "root", "SVD", "eigen", "eigensym", "eigentri", "Hessenberg", "tridiagonal", "bidiagonal", "Schur"}

func init() {
	Register("C24", "history", "accepted, order at least 2, at least three readings", 16000, 300000,
		func(t *rapid.T) SnapCase {
			c := SnapCase{Dec: oneOf(t, snapDecs, "dec"), Rep2: genRep(t, append([]string{"default"}, denseReps...), "rep2"), Vec: oneOf(t, vecReps, "vec")}
			rows := 0
			switch c.Dec {
			case "LU", "Hessenberg", "Schur", "eigen":
				n := laDim(t, 56, "n")
				c.A = genLA(t, n, n, laEigen, true)
				rows = n
			case "QR", "RRQR", "SVD", "bidiagonal":
				r, k := genRect(t, 56)
				c.A = genLA(t, r, k, laGeneral, true)
				rows = r
			default:
				n := laDim(t, 56, "n")
				kinds := symAll
				scales := []int{0, 0, 20, -20, 250, -250}
				switch c.Dec {
				case "Cholesky":
					kinds = []string{"known+", "gram", "posdiag", "ldl", "identity", "tiny"}
				case "root":
					kinds, scales = []string{"psdrank", "psdfrank", "gram", "posdiag", "identity", "ones"}, nil
				case "eigentri":
					kinds = []string{"tridiag", "diag", "zero", "identity"}
				case "eigensym":
					c.Dec = "eigen"
				}
				s := genSym(t, n, kinds, scales)
				if (s.Kind == "ldl" || s.Kind == "gram") && c.Dec == "Cholesky" {
					s.K = 0
				}
				c.S = &s
				rows = s.N
			}
			c.B = genMat(t, genRep(t, append([]string{"default"}, denseReps...), "brep"), rows, 1+pick(t, 3, "rhs"), oneOf(t, []string{dInt, dFloat}, "bdist"), "b")
			for i, k := 0, 1+pick(t, 14, "steps"); i < k; i++ {
				c.History = append(c.History, pick(t, 32, "read"))
			}
			return c
		}, checkSnapshot)
}
