package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// A population of live matrices, vectors and slices. Every step makes a new
// member from older ones or writes one member; every other member keeps its content.
type PopStep struct {
	Op      string
	X, Y    int // members, counted from the newest of the kind wanted
	I, J, N int
	V       int
}

type PopCase struct {
	Mats  []Mat
	Vecs  []Vec
	Steps []PopStep
}

var popMake = []string{
	"Copy", "Add", "Subtract", "ScalarAdd", "ScalarMultiply", "Multiply", "PreMultiplyMatrix", "Transpose", "SubMatrix", "Data", "RowAt", "ColumnAt",
	"RowMatrixAt", "ColumnMatrixAt", "RowVectorAt", "ColumnVectorAt", "Operate", "OperateVector", "PreMultiply", "PreMultiplyVector", "Power", "fromSlices", "blockFromSlices", "realFromSlices",
	"fromSlice", "diagFromSlice", "realDiag", "withDiagonal",
	"vCopy", "vAdd", "vSubtract", "vEBEMultiply", "vEBEDivide", "vAppendVector", "vAppendVector", "vAppend", "vAppend", "vSubVector", "vToArray", "vOuter",
	"vTwo", "vTwoArray", "vTwoArray", "vFromSlice", "vFromCopy", "vReal", "vCtorCopy", "solve",
}
var popWrite = []string{"SetEntry", "SetEntry", "AddToEntry", "MultiplyEntry", "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "walk",
	"vSetEntry", "vSetEntry", "vSetEntry", "vAddToEntry", "vSet", "vMapAdd", "vCombine", "vCopyFrom", "vSetSubVector", "vSetSubVectorSlice", "vUnitize", "sWrite", "sWrite", "nWrite"}

type member struct {
	m    lin.RealMatrix
	v    lin.RealVector
	s    []float64
	n    [][]float64
	by   string
	last Dense
}

func (x *member) now() Dense {
	switch {
	case x.m != nil:
		return toDense(x.m)
	case x.v != nil:
		return Dense{toSlice(x.v)}
	case x.n != nil:
		return Dense(x.n).clone()
	}
	return Dense{append([]float64{}, x.s...)}
}

func genPop(t *rapid.T) PopCase {
	var c PopCase
	n := genDim(t, 60, "n")
	for i := 1 + pick(t, 3, "mats"); i > 0; i-- {
		c.Mats = append(c.Mats, genMat(t, genRep(t, allReps, "rep"), n, n, dInt, "m"))
	}
	for i := 1 + pick(t, 3, "vecs"); i > 0; i-- {
		c.Vecs = append(c.Vecs, genVec(t, genRep(t, vecReps, "vrep"), n, dInt, "v"))
	}
	vectors := pct(t, 40, "vectors") // mostly operations on vectors and slices
	for k := 3 + pick(t, 14, "steps"); k > 0; k-- {
		s := PopStep{X: pick(t, 3, "x"), Y: pick(t, 4, "y"), I: pick(t, 64, "i"), J: pick(t, 64, "j"), N: pick(t, 64, "n"), V: pick(t, 9, "v") - 4}
		l := popMake
		if pct(t, 45, "write") {
			l = popWrite
		}
		if vectors {
			var w []string
			for _, o := range l {
				if o[0] == 'v' || o[0] == 's' && o != "solve" {
					w = append(w, o)
				}
			}
			l = w
		}
		s.Op = oneOf(t, l, "op")
		c.Steps = append(c.Steps, s)
	}
	return c
}

func checkPop(c PopCase, o *Obs) error {
	var pop []*member
	add := func(by string, x member) {
		x.by = by
		pop = append(pop, &x)
		x.last = x.now()
		pop[len(pop)-1].last = x.last
	}
	for _, m := range c.Mats {
		a, _ := m.build()
		add("start "+m.Rep, member{m: a})
	}
	for _, v := range c.Vecs {
		u, _ := v.build()
		add("start vector", member{v: u})
	}
	// k-th newest member of a kind
	find := func(k int, kind byte) *member {
		var l []*member
		for i := len(pop) - 1; i >= 0; i-- {
			x := pop[i]
			if kind == 'm' && x.m != nil || kind == 'v' && x.v != nil || kind == 's' && x.s != nil || kind == 'n' && x.n != nil || kind == 'a' && isArrayVec(x.v) {
				l = append(l, x)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[k%len(l)]
	}
	made, wrote := 0, 0
	for si, st := range c.Steps {
		if len(pop) > 14 {
			pop = append(pop[:1], pop[len(pop)-12:]...)
		}
		var target *member
		what := fmt.Sprintf("step %d (%s)", si, st.Op)
		m, m2 := find(st.X, 'm'), find(st.Y, 'm')
		v, v2 := find(st.X, 'v'), find(st.Y, 'v')
		s, s2 := find(st.X, 's'), find(st.Y, 's')
		n := find(st.X, 'n')
		r, k := 1, 1
		if m != nil {
			r, k = m.m.RowDimension(), m.m.ColumnDimension()
		}
		i, j := st.I%r, st.J%k
		d := float64(st.V)
		unknown := false
		mm := func(f func() lin.RealMatrix) { add(what, member{m: f()}) }
		vv := func(f func() lin.RealVector) { add(what, member{v: f()}) }
		ss := func(f func() []float64) {
			if x := f(); x != nil {
				add(what, member{s: x})
			}
		}
		p := attempt(func() {
			switch st.Op {
			case "Copy":
				mm(m.m.Copy)
			case "Add":
				mm(func() lin.RealMatrix { return m.m.Add(m2.m) })
			case "Subtract":
				mm(func() lin.RealMatrix { return m.m.Subtract(m2.m) })
			case "ScalarAdd":
				mm(func() lin.RealMatrix { return m.m.ScalarAdd(d) })
			case "ScalarMultiply":
				mm(func() lin.RealMatrix { return m.m.ScalarMultiply(d) })
			case "Multiply":
				mm(func() lin.RealMatrix { return m.m.Multiply(m2.m) })
			case "PreMultiplyMatrix":
				mm(func() lin.RealMatrix { return m.m.PreMultiplyMatrix(m2.m) })
			case "Transpose":
				mm(m.m.Transpose)
			case "SubMatrix":
				mm(func() lin.RealMatrix { return m.m.SubMatrix(i, r-1, j, k-1) })
			case "Power":
				mm(func() lin.RealMatrix { return lin.Power(m.m, st.N%3) })
			case "Data":
				x := m.m.Data()
				add(what, member{n: x})
			case "RowAt":
				ss(func() []float64 { return m.m.RowAt(i) })
			case "ColumnAt":
				ss(func() []float64 { return m.m.ColumnAt(j) })
			case "RowMatrixAt":
				mm(func() lin.RealMatrix { return m.m.RowMatrixAt(i) })
			case "ColumnMatrixAt":
				mm(func() lin.RealMatrix { return m.m.ColumnMatrixAt(j) })
			case "RowVectorAt":
				vv(func() lin.RealVector { return m.m.RowVectorAt(i) })
			case "ColumnVectorAt":
				vv(func() lin.RealVector { return m.m.ColumnVectorAt(j) })
			case "Operate":
				ss(func() []float64 { return m.m.Operate(s.s) })
			case "PreMultiply":
				ss(func() []float64 { return m.m.PreMultiply(s.s) })
			case "OperateVector":
				vv(func() lin.RealVector { return m.m.OperateVector(v2.v) })
			case "PreMultiplyVector":
				vv(func() lin.RealVector { return m.m.PreMultiplyVector(v2.v) })
			case "fromSlices":
				mm(func() lin.RealMatrix { return must(lin.NewArray2DRowRealMatrixFromSlices(n.n, true)) })
			case "blockFromSlices":
				mm(func() lin.RealMatrix { return must(lin.NewBlockRealMatrixFromSlices(n.n)) })
			case "realFromSlices":
				mm(func() lin.RealMatrix { return must(lin.NewRealMatrixFromSlices(n.n)) })
			case "fromSlice":
				mm(func() lin.RealMatrix { return must(lin.NewArray2DRowRealMatrixFromSlice(s.s)) })
			case "diagFromSlice":
				mm(func() lin.RealMatrix { return must(lin.NewDiagonalMatrixFromSlice(s.s)) })
			case "realDiag":
				mm(func() lin.RealMatrix { return must(lin.NewRealDiagonalMatrix(s.s)) })
			case "withDiagonal":
				mm(func() lin.RealMatrix { return must(lin.NewRealMatrixWithDiagonal(s.s)) })
			case "solve":
				lu := must(lin.NewLUDecompositionWithThreshold(m.m, 1e-300)).Solver()
				if st.N%2 == 0 {
					mm(func() lin.RealMatrix { return lu.SolveMatrix(m2.m) })
				} else {
					vv(func() lin.RealVector { return lu.SolveVector(v2.v) })
				}
			case "vCopy":
				vv(v.v.Copy)
			case "vAdd":
				vv(func() lin.RealVector { return v.v.Add(v2.v) })
			case "vSubtract":
				vv(func() lin.RealVector { return v.v.Subtract(v2.v) })
			case "vEBEMultiply":
				vv(func() lin.RealVector { return v.v.EBEMultiply(v2.v) })
			case "vEBEDivide":
				vv(func() lin.RealVector { return v.v.EBEDivide(v2.v) })
			case "vAppendVector":
				vv(func() lin.RealVector { return v.v.AppendVector(v2.v) })
			case "vAppend":
				vv(func() lin.RealVector { return v.v.Append(d) })
			case "vSubVector":
				a := st.I % v.v.Dimension()
				vv(func() lin.RealVector { return v.v.SubVector(a, 1+st.N%(v.v.Dimension()-a)) })
			case "vToArray":
				ss(v.v.ToArray)
			case "vOuter":
				mm(func() lin.RealMatrix { return lin.OuterProduct(v.v, v2.v) })
			case "vTwo":
				vv(func() lin.RealVector { return must(lin.NewArrayRealVectorFromTwoRealVector(v.v, v2.v)) })
			case "vTwoArray":
				a, b := find(st.X, 'a'), find(st.Y, 'a')
				vv(func() lin.RealVector {
					return must(lin.NewArrayRealVectorFromTwoArrayRealVector(a.v.(*lin.ArrayRealVector), b.v.(*lin.ArrayRealVector)))
				})
			case "vFromSlice":
				vv(func() lin.RealVector { return must(lin.NewArrayRealVectorFromSlice(s.s)) })
			case "vFromCopy":
				vv(func() lin.RealVector { return must(lin.NewArrayRealVector(s.s, true)) })
			case "vReal":
				vv(func() lin.RealVector { return must(lin.NewRealVector(s.s)) })
			case "vCtorCopy":
				vv(func() lin.RealVector { return must(lin.NewArrayRealVectorCopy(v.v)) })

			case "SetEntry":
				target = m
				m.m.SetEntry(i, j, d)
			case "AddToEntry":
				target = m
				m.m.AddToEntry(i, j, d)
			case "MultiplyEntry":
				target = m
				m.m.MultiplyEntry(i, j, d)
			case "SetRow":
				target = m
				m.m.SetRow(i, s2.s)
			case "SetColumn":
				target = m
				m.m.SetColumn(j, s2.s)
			case "SetRowVector":
				target = m
				m.m.SetRowVector(i, v2.v)
			case "SetColumnVector":
				target = m
				m.m.SetColumnVector(j, v2.v)
			case "SetRowMatrix":
				target = m
				m.m.SetRowMatrix(i, m2.m)
			case "SetColumnMatrix":
				target = m
				m.m.SetColumnMatrix(j, m2.m)
			case "SetSubMatrix":
				target = m
				m.m.SetSubMatrix(n.n, i, j)
			case "walk":
				target = m
				m.m.WalkInUpdateOptimizedOrder(changing{&recorder{f: func(i, j int, x float64) float64 { return x + d }}})
			case "vSetEntry":
				target = v
				v.v.SetEntry(st.I%v.v.Dimension(), d)
			case "vAddToEntry":
				target = v
				v.v.AddToEntry(st.I%v.v.Dimension(), d)
			case "vSet":
				target = v
				v.v.Set(d)
			case "vMapAdd":
				target = v
				v.v.MapAdd(d)
			case "vCombine":
				target = v
				v.v.Combine(d, 2, v2.v)
			case "vCopyFrom":
				target = v
				v.v.CopyFrom(v2.v)
			case "vSetSubVector":
				target = v
				v.v.SetSubVector(st.I%v.v.Dimension(), v2.v)
			case "vSetSubVectorSlice":
				target = v
				v.v.(*lin.ArrayRealVector).SetSubVectorWithSlice(st.I%v.v.Dimension(), s2.s)
			case "vUnitize":
				target = v
				v.v.Unitize()
			case "sWrite":
				target = s
				s.s[st.I%len(s.s)] = d
			case "nWrite":
				target = n
				n.n[st.I%len(n.n)][st.J%len(n.n[0])] = d
			default:
				unknown = true
			}
		})
		if unknown {
			hbug("population op %q", st.Op)
		}
		if p == nil {
			if target != nil {
				wrote++
			} else {
				made++
			}
			o.Label(st.Op)
		}
		for _, x := range pop {
			if x == target {
				x.last = x.now()
				continue
			}
			if w := x.now(); !sameBits(w, x.last) {
				by := ""
				if target != nil {
					by = fmt.Sprintf(" (writing the result of: %s)", target.by)
				}
				return fmt.Errorf("%s%s changed the result of: %s", what, by, x.by)
			}
		}
	}
	o.NonTrivial(made > 1 && wrote > 0)
	return nil
}

func isArrayVec(v lin.RealVector) bool {
	_, ok := v.(*lin.ArrayRealVector)
	return ok
}

func sameBits(a, b Dense) bool {
	if a.rows() != b.rows() || a.cols() != b.cols() {
		return false
	}
	for i := range a {
		for j := range a[i] {
			if !same(a[i][j], b[i][j]) {
				return false
			}
		}
	}
	return true
}

func init() {
	Register("C06", "population", "up to 16 steps over live matrices, vectors and slices: each makes a new member from older ones (46 kinds) or writes one (25 kinds), and every member not written keeps its content; non-trivial: two made and one written",
		12000, 200000, genPop, checkPop)
}
