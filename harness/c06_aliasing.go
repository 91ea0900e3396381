package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// A thing is a mutable value involved in an operation: matrix, vector, slice.
type thing struct {
	name   string
	snap   func() Dense
	mutate func()
}

func matThing(name string, m lin.RealMatrix, diag bool) thing {
	return thing{name, func() Dense { return toDense(m) }, func() {
		for i := 0; i < m.RowDimension(); i++ {
			for j := 0; j < m.ColumnDimension(); j++ {
				if !diag || i == j {
					m.SetEntry(i, j, m.At(i, j)*2+float64(1+i+3*j))
				}
			}
		}
	}}
}

func vecThing(name string, v lin.RealVector) thing {
	return thing{name, func() Dense { return fromCol(toSlice(v)) }, func() {
		for i := 0; i < v.Dimension(); i++ {
			v.SetEntry(i, v.At(i)*2+float64(1+i))
		}
	}}
}

func sliceThing(name string, s []float64) thing {
	return thing{name, func() Dense { return fromCol(append([]float64{}, s...)) }, func() {
		for i := range s {
			s[i] = s[i]*2 + float64(1+i)
		}
	}}
}

func nestedThing(name string, s [][]float64) thing {
	return thing{name, func() Dense { return Dense(s).clone() }, func() {
		for i := range s {
			for j := range s[i] {
				s[i][j] = s[i][j]*2 + float64(1+i+3*j)
			}
		}
	}}
}

func isDiag(m lin.RealMatrix) bool {
	_, ok := m.(*lin.DiagonalMatrix)
	return ok
}

type AliasCase struct {
	Op           string
	A, B         Mat
	U            Vec
	Self         bool
	I, I2, J, J2 int
	Idx, Jdx     []int
	P            int
	Flip         bool // mutate the result before the operands
}

var aliasOps = []string{
	"Copy", "Add", "Subtract", "ScalarAdd", "ScalarMultiply", "Multiply", "PreMultiplyMatrix", "Data", "SubMatrix",
	"RowMatrixAt", "ColumnMatrixAt", "RowVectorAt", "ColumnVectorAt", "RowAt", "ColumnAt", "Transpose", "Operate",
	"OperateVector", "PreMultiply", "PreMultiplyVector", "SubMatrixIdx", "CopySubMatrix", "CopySubMatrixIdx", "Power", "OuterProduct",
	"SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix",
	"ctor:arraySlices", "ctor:blockSlices", "ctor:defaultSlices", "ctor:column", "ctor:diagCopy", "ctor:diagSlice", "ctor:realDiag", "ctor:withDiagonal",
	"readonly",
}

func genAlias(t *rapid.T) AliasCase {
	var c AliasCase
	c.Op = oneOf(t, aliasOps, "op")
	r, k := genDim(t, 70, "r"), genDim(t, 70, "c")
	ra, rb := genRep(t, allReps, "ra"), genRep(t, allReps, "rb")
	switch c.Op {
	case "Power", "PreMultiplyMatrix", "Multiply":
		k = r
		if c.Op == "Power" && r > 20 {
			r, k = 7, 7
		}
	case "Add", "Subtract":
		if rb == "diag" || ra == "diag" {
			k = r
		}
		if ra == "diag" {
			rb = "diag"
		}
	case "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "SubMatrix", "RowMatrixAt", "ColumnMatrixAt", "ScalarAdd":
		if ra == "diag" {
			ra = "block"
		}
	}
	if ra == "diag" || rb == "diag" {
		k = r
	}
	c.A = genMat(t, ra, r, k, dInt, "a")
	c.B = genMat(t, rb, r, k, dInt, "b")
	c.U = genVec(t, genRep(t, vecReps, "ru"), r, dInt, "u")
	c.Self = pct(t, 25, "self")
	c.I, c.I2 = genRange(t, r, "i")
	c.J, c.J2 = genRange(t, k, "j")
	for n := 1 + pick(t, 4, "ni"); n > 0; n-- {
		c.Idx = append(c.Idx, genIdx(t, r, "i"))
	}
	for n := 1 + pick(t, 4, "nj"); n > 0; n-- {
		c.Jdx = append(c.Jdx, genIdx(t, k, "j"))
	}
	c.P = pick(t, 4, "p")
	c.Flip = pct(t, 50, "flip")
	return c
}

// independence checks that the operands did not change during the operation
// (done: what they were before) and that nothing shows through afterwards.
func independence(what string, operands []thing, before []Dense, results []thing, flip bool) error {
	eq := func(a, b Dense) bool {
		if a.rows() != b.rows() || a.cols() != b.cols() {
			return false
		}
		for i := range a {
			for j := range a[i] {
				if !same(a[i][j], b[i][j]) {
					return false
				}
			}
		}
		return true
	}
	for i, o := range operands {
		if before[i] != nil && !eq(o.snap(), before[i]) {
			return fmt.Errorf("%s changed its operand %s", what, o.name)
		}
	}
	first, second := operands, results
	if flip {
		first, second = results, operands
	}
	for _, pair := range [][2][]thing{{first, second}, {second, first}} {
		for _, a := range pair[0] {
			var snaps []Dense
			for _, b := range pair[1] {
				snaps = append(snaps, b.snap())
			}
			a.mutate()
			for i, b := range pair[1] {
				if !eq(b.snap(), snaps[i]) {
					return fmt.Errorf("after %s, changing the %s changes the %s", what, a.name, b.name)
				}
			}
		}
	}
	// results must not share with each other either
	for i := range results {
		for j := range results {
			if i == j {
				continue
			}
			s := results[j].snap()
			results[i].mutate()
			if !eq(results[j].snap(), s) {
				return fmt.Errorf("after %s, two results share storage", what)
			}
		}
	}
	return nil
}

func checkAlias(c AliasCase, o *Obs) error {
	a, da := c.A.build()
	b, _ := c.B.build()
	if c.Self {
		b = a
	}
	u, us := c.U.build()
	vslice := make([]float64, c.A.C)
	for i := range vslice {
		vslice[i] = float64(i%5) - 2
	}
	ta := matThing("matrix", a, c.A.Rep == "diag")
	tb := matThing("second matrix", b, c.B.Rep == "diag" || (c.Self && c.A.Rep == "diag"))
	tu := vecThing("vector", u)
	tv := sliceThing("slice", vslice)
	operands := []thing{ta, tb, tu, tv}
	var before []Dense
	for _, x := range operands {
		before = append(before, x.snap())
	}
	var results []thing
	rm := func(m lin.RealMatrix) { results = append(results, matThing("result", m, isDiag(m))) }
	rv := func(v lin.RealVector) { results = append(results, vecThing("result", v)) }
	rs := func(s []float64) { results = append(results, sliceThing("result", s)) }
	rn := func(s [][]float64) { results = append(results, nestedThing("result", s)) }
	// each operation is performed twice: results must be independent of each other
	for rep := 0; rep < 2; rep++ {
		switch c.Op {
		case "Copy":
			rm(a.Copy())
		case "Add":
			rm(a.Add(b))
		case "Subtract":
			rm(a.Subtract(b))
		case "ScalarAdd":
			rm(a.ScalarAdd(float64(c.P)))
		case "ScalarMultiply":
			rm(a.ScalarMultiply(float64(c.P)))
		case "Multiply":
			rm(a.Multiply(b))
		case "PreMultiplyMatrix":
			rm(a.PreMultiplyMatrix(b))
		case "Data":
			rn(a.Data())
		case "SubMatrix":
			rm(a.SubMatrix(c.I, c.I2, c.J, c.J2))
		case "RowMatrixAt":
			rm(a.RowMatrixAt(c.I))
		case "ColumnMatrixAt":
			rm(a.ColumnMatrixAt(c.J))
		case "RowVectorAt":
			rv(a.RowVectorAt(c.I))
		case "ColumnVectorAt":
			rv(a.ColumnVectorAt(c.J))
		case "RowAt":
			rs(a.RowAt(c.I))
		case "ColumnAt":
			rs(a.ColumnAt(c.J))
		case "Transpose":
			rm(a.Transpose())
		case "Operate":
			rs(a.Operate(vslice))
		case "OperateVector":
			rv(a.Transpose().OperateVector(u))
		case "PreMultiply":
			rs(a.Transpose().PreMultiply(vslice))
		case "PreMultiplyVector":
			rv(a.PreMultiplyVector(u))
		case "SubMatrixIdx":
			rm(lin.SubMatrix(a, c.Idx, c.Jdx))
		case "CopySubMatrix":
			d := newDense(c.I2-c.I+1, c.J2-c.J+1)
			lin.CopySubMatrix(a, c.I, c.I2, c.J, c.J2, d)
			rn(d)
		case "CopySubMatrixIdx":
			d := newDense(len(c.Idx), len(c.Jdx))
			lin.CopySubMatrixFromIndices(a, c.Idx, c.Jdx, d)
			rn(d)
		case "Power":
			rm(lin.Power(a, c.P))
		case "OuterProduct":
			rm(lin.OuterProduct(u, u))
		case "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix":
			// the source argument stays independent of the matrix; a itself changes
			operands, before = []thing{ta}, []Dense{nil}
			src := func(x thing) { results = append(results, x) }
			x := newDense(c.I2-c.I+1, c.J2-c.J+1)
			for i := range x {
				for j := range x[i] {
					x[i][j] = float64(i - j)
				}
			}
			colv := append([]float64{}, us...)
			switch c.Op {
			case "SetRow":
				a.SetRow(c.I, vslice)
				src(tv)
			case "SetColumn":
				a.SetColumn(c.J, colv)
				src(sliceThing("source slice", colv))
			case "SetRowVector":
				v := buildVec(c.U.Rep, vslice)
				a.SetRowVector(c.I, v)
				src(vecThing("source vector", v))
			case "SetColumnVector":
				a.SetColumnVector(c.J, u)
				src(tu)
			case "SetRowMatrix":
				m := buildMat(denseOf(c.B.Rep), Dense{vslice})
				a.SetRowMatrix(c.I, m)
				src(matThing("source matrix", m, false))
			case "SetColumnMatrix":
				m := buildMat(denseOf(c.B.Rep), fromCol(us))
				a.SetColumnMatrix(c.J, m)
				src(matThing("source matrix", m, false))
			case "SetSubMatrix":
				a.SetSubMatrix(x, c.I, c.J)
				src(nestedThing("source slices", x))
			}
			if rep == 0 {
				results = nil
			}
		case "ctor:arraySlices", "ctor:blockSlices", "ctor:defaultSlices":
			s := da.clone()
			operands = []thing{nestedThing("source slices", s)}
			before = []Dense{nil}
			if rep == 0 {
				continue
			}
			rm(buildNoClone(c.Op[5:], s))
			rm(buildNoClone(c.Op[5:], s))
		case "ctor:column", "ctor:diagCopy", "ctor:diagSlice", "ctor:realDiag", "ctor:withDiagonal":
			s := append([]float64{}, us...)
			operands = []thing{sliceThing("source slice", s)}
			before = []Dense{nil}
			if rep == 0 {
				continue
			}
			for k := 0; k < 2; k++ {
				switch c.Op {
				case "ctor:column":
					rm(must(lin.NewArray2DRowRealMatrixFromSlice(s)))
				case "ctor:diagCopy":
					rm(must(lin.NewDiagonalMatrix(s, true)))
				case "ctor:diagSlice":
					rm(must(lin.NewDiagonalMatrixFromSlice(s)))
				case "ctor:realDiag":
					rm(must(lin.NewRealDiagonalMatrix(s)))
				case "ctor:withDiagonal":
					rm(must(lin.NewRealMatrixWithDiagonal(s)))
				}
			}
		case "readonly":
			lin.MatFrobeniusNorm(a)
			lin.MatLInfNorm(a)
			a.Equals(b)
			lin.IsSquare(a)
			if c.A.R == c.A.C {
				a.Trace()
			}
			for _, ord := range walkKinds {
				doWalk(a, WalkCase{M: c.A, Order: ord}, &recorder{})
			}
		default:
			hbug("alias op %q", c.Op)
		}
	}
	o.NonTrivial(c.A.R*c.A.C > 1)
	o.Label(c.Op)
	o.LabelIf(c.Self, "self")
	what := fmt.Sprintf("%s (%s, %s, %dx%d, same object: %v)", c.Op, c.A.Rep, c.B.Rep, c.A.R, c.A.C, c.Self)
	return independence(what, operands, before, results, c.Flip)
}

func denseOf(rep string) string {
	if rep == "diag" {
		return "block"
	}
	return rep
}

func buildNoClone(how string, s [][]float64) lin.RealMatrix {
	switch how {
	case "arraySlices":
		return must(lin.NewArray2DRowRealMatrixFromSlices(s, true))
	case "blockSlices":
		return must(lin.NewBlockRealMatrixFromSlices(s))
	}
	return must(lin.NewRealMatrixFromSlices(s))
}

type VAliasCase struct {
	Op   string
	V, W Vec
	Self bool
	I, N int
	Flip bool
}

var valiasOps = []string{"Copy", "Add", "Subtract", "EBEMultiply", "EBEDivide", "AppendVector", "Append", "SubVector", "ToArray", "UnitVector", "Projection",
	"CopyFrom", "SetSubVector", "SetSubVectorSlice", "Combine", "ctor:slice", "ctor:copy", "ctor:vector", "ctor:two", "ctor:twoArray", "ctor:real", "iterate", "readonly"}

func checkVAlias(c VAliasCase, o *Obs) error {
	v, dv := c.V.build()
	w, dw := c.W.build()
	if c.Self {
		w, dw = v, dv
	}
	tv, tw := vecThing("vector", v), vecThing("second vector", w)
	operands := []thing{tv, tw}
	before := []Dense{tv.snap(), tw.snap()}
	var results []thing
	rv := func(x lin.RealVector) { results = append(results, vecThing("result", x)) }
	for rep := 0; rep < 2; rep++ {
		switch c.Op {
		case "Copy":
			rv(v.Copy())
		case "Add":
			rv(v.Add(w))
		case "Subtract":
			rv(v.Subtract(w))
		case "EBEMultiply":
			rv(v.EBEMultiply(w))
		case "EBEDivide":
			rv(v.EBEDivide(w))
		case "AppendVector":
			rv(v.AppendVector(w))
		case "Append":
			rv(v.Append(3))
		case "SubVector":
			rv(v.SubVector(c.I, c.N))
		case "ToArray":
			results = append(results, sliceThing("result", v.ToArray()))
		case "UnitVector":
			if nonzero(dv) {
				rv(lin.UnitVector(v))
			}
		case "Projection":
			if nonzero(dw) {
				rv(lin.Projection(v, w))
			}
		case "CopyFrom", "SetSubVector", "SetSubVectorSlice", "Combine":
			if c.Self {
				// same object on both sides: nothing to separate
				operands, before = nil, nil
				continue
			}
			operands, before = []thing{tv}, []Dense{nil}
			switch c.Op {
			case "CopyFrom":
				v.CopyFrom(w)
				results = []thing{tw}
			case "Combine":
				v.Combine(2, 1, w)
				results = []thing{tw}
			case "SetSubVector":
				s := buildVec(c.W.Rep, dw[:c.N])
				v.SetSubVector(c.I, s)
				results = []thing{vecThing("source", s)}
			case "SetSubVectorSlice":
				s := append([]float64{}, dw[:c.N]...)
				a := must(lin.NewArrayRealVector(dv, true))
				a.SetSubVectorWithSlice(c.I, s)
				operands = []thing{vecThing("vector", a)}
				results = []thing{sliceThing("source", s)}
			}
			if rep == 0 {
				s := tw.snap()
				if s.sub(fromCol(dw)).maxAbs() != 0 {
					return fmt.Errorf("%s changed its argument", c.Op)
				}
			}
		case "ctor:slice", "ctor:copy", "ctor:real":
			s := append([]float64{}, dv...)
			operands, before = []thing{sliceThing("source", s)}, []Dense{nil}
			results = nil
			for k := 0; k < 2; k++ {
				switch c.Op {
				case "ctor:slice":
					rv(must(lin.NewArrayRealVectorFromSlice(s)))
				case "ctor:copy":
					rv(must(lin.NewArrayRealVector(s, true)))
				case "ctor:real":
					rv(must(lin.NewRealVector(s)))
				}
			}
		case "ctor:vector":
			rv(must(lin.NewArrayRealVectorCopy(v)))
		case "ctor:two":
			rv(must(lin.NewArrayRealVectorFromTwoRealVector(v, w)))
		case "ctor:twoArray":
			va, ok1 := v.(*lin.ArrayRealVector)
			wa, ok2 := w.(*lin.ArrayRealVector)
			if ok1 && ok2 {
				rv(must(lin.NewArrayRealVectorFromTwoArrayRealVector(va, wa)))
			}
		case "iterate":
			// entries keep the value they had when they were produced
			it := v.Iterator()
			var es []lin.Entry
			for it.HasNext() {
				es = append(es, it.Next())
			}
			v.Set(12345)
			for i, e := range es {
				if e.Index() != i || !same(e.Value(), dv[i]) {
					return fmt.Errorf("iterator entry %d is (%d, %v), want value %v", i, e.Index(), e.Value(), dv[i])
				}
			}
			v.CopyFrom(must(lin.NewArrayRealVector(dv, true)))
		case "readonly":
			lin.VecNorm(v)
			lin.VecL1Norm(v)
			lin.VecLInfNorm(v)
			lin.VecDotProduct(v, w)
			lin.VecDistance(v, w)
			lin.VecL1Distance(v, w)
			lin.VecLInfDistance(v, w)
			lin.MinIndex(v)
			lin.MaxIndex(v)
			v.Equals(w)
			v.IsNaN()
			v.IsInf()
			if nonzero(dv) && nonzero(dw) {
				lin.VecCosine(v, w)
			}
			lin.OuterProduct(v, w)
		default:
			hbug("valias %q", c.Op)
		}
	}
	o.NonTrivial(len(dv) > 1)
	o.Label("vector:" + c.Op)
	return independence(fmt.Sprintf("%s (%s, %s, length %d, same object: %v)", c.Op, c.V.Rep, c.W.Rep, len(dv), c.Self), operands, before, results, c.Flip)
}

func nonzero(v []float64) bool {
	for _, x := range v {
		if x != 0 {
			return true
		}
	}
	return false
}

func init() {
	Register("C06", "matrices", "every matrix operation (41 kinds) on random operands of every representation, the same object on both sides included: operands unchanged by the call, then result and operands mutated in both orders without showing through; non-trivial: more than one entry",
		25000, 400000, genAlias, checkAlias)
	Register("C06", "vectors", "the same for 23 vector operations and constructors with built-in and foreign vectors; non-trivial: more than one element",
		20000, 300000,
		func(t *rapid.T) VAliasCase {
			n := genDim(t, 40, "n")
			c := VAliasCase{Op: oneOf(t, valiasOps, "op"), V: genVec(t, genRep(t, vecReps, "rv"), n, dInt, "v"), W: genVec(t, genRep(t, vecReps, "rw"), n, dInt, "w")}
			switch c.Op {
			case "AppendVector", "ctor:two", "ctor:twoArray":
				// lengths of their own, nothing included
				for _, x := range []*Vec{&c.V, &c.W} {
					if pct(t, 30, "other length") {
						k := pick(t, 4, "length")
						*x = genVec(t, x.Rep, k, dInt, "x")
					}
				}
			}
			c.Self = pct(t, 20, "self")
			a, b := genRange(t, n, "i")
			c.I, c.N = a, b-a+1
			c.Flip = pct(t, 50, "flip")
			return c
		}, checkVAlias)

	type refCase struct {
		Kind string
		M    Mat
		V    Vec
		I, J int
		X    F
	}
	Register("C06", "references", "constructors asked not to copy and reference accessors share storage in both directions; non-trivial: more than one entry",
		8000, 100000,
		func(t *rapid.T) refCase {
			r, k := genDim(t, 30, "r"), genDim(t, 30, "c")
			return refCase{oneOf(t, []string{"array", "arrayDataRef", "diag", "diagDataRef", "vector", "vectorDataRef"}, "kind"), genMat(t, "array", r, k, dInt, "m"), genVec(t, "array", r, dInt, "v"), genIdx(t, r, "i"), genIdx(t, k, "j"), F(1000 + pick(t, 100, "x"))}
		},
		func(c refCase, o *Obs) error {
			d := c.M.dense()
			v := c.V.vals()
			x := float64(c.X)
			o.NonTrivial(len(v) > 1)
			o.Label(c.Kind)
			bad := func(dir string) error { return fmt.Errorf("%s does not share its storage (%s)", c.Kind, dir) }
			switch c.Kind {
			case "array", "arrayDataRef":
				var m *lin.Array2DRowRealMatrix
				s := [][]float64(d.clone())
				if c.Kind == "array" {
					m = must(lin.NewArray2DRowRealMatrixFromSlices(s, false))
				} else {
					m = must(lin.NewArray2DRowRealMatrixFromSlices(s, true))
					s = m.DataRef()
				}
				m.SetEntry(c.I, c.J, x)
				if s[c.I][c.J] != x {
					return bad("write to the matrix")
				}
				s[c.I][c.J] = -x
				if m.At(c.I, c.J) != -x {
					return bad("write to the slices")
				}
				d[c.I][c.J] = -x
				return matchModel(c.Kind, m, d)
			case "diag", "diagDataRef":
				var m *lin.DiagonalMatrix
				s := append([]float64{}, v...)
				if c.Kind == "diag" {
					m = must(lin.NewDiagonalMatrix(s, false))
				} else {
					m = must(lin.NewDiagonalMatrix(s, true))
					s = m.DataRef()
				}
				m.SetEntry(c.I, c.I, x)
				if s[c.I] != x {
					return bad("write to the matrix")
				}
				s[c.I] = -x
				if m.At(c.I, c.I) != -x {
					return bad("write to the slice")
				}
			default:
				var m *lin.ArrayRealVector
				s := append([]float64{}, v...)
				if c.Kind == "vector" {
					m = must(lin.NewArrayRealVector(s, false))
				} else {
					m = must(lin.NewArrayRealVector(s, true))
					s = m.DataRef()
				}
				m.SetEntry(c.I, x)
				if s[c.I] != x {
					return bad("write to the vector")
				}
				s[c.I] = -x
				if m.At(c.I) != -x {
					return bad("write to the slice")
				}
			}
			return nil
		})
}
