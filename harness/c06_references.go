package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// RefOp is one write in the history of an object that shares its storage.
type RefOp struct {
	K    string `json:"k"`
	I, J int
	P, Q int // size, of those that have one
	X    F   `json:"x"`
}

// RefHistCase: an object bound to slices the caller goes on holding, row by
// row, and writes made through either of them.
type RefHistCase struct {
	Kind string  `json:"kind"` // array, arrayDataRef, diag, diagDataRef, vector, vectorDataRef
	M    Mat     `json:"m"`
	V    Vec     `json:"v"`
	Ops  []RefOp `json:"ops"`
}

var refMatOps = []string{"SetEntry", "AddToEntry", "MultiplyEntry", "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "WalkRow", "WalkColumn", "WalkOptimized", "slice", "slice", "read"}
var refVecOps = []string{"SetEntry", "AddToEntry", "Set", "Map", "MapAdd", "MapSubtract", "MapMultiply", "MapDivide", "Unitize", "CopyFrom", "Combine", "SetSubVector", "SetSubVectorWithSlice", "WalkDefault", "WalkOptimized", "slice", "slice", "read"}

func genRefHist(t *rapid.T) RefHistCase {
	kind := oneOf(t, []string{"array", "arrayDataRef", "diag", "diagDataRef", "vector", "vectorDataRef"}, "kind")
	r, k := 1+pick(t, 8, "r"), 1+pick(t, 8, "c")
	if kind == "diag" || kind == "diagDataRef" {
		k = r
	}
	c := RefHistCase{Kind: kind, M: genMat(t, "array", r, k, dInt, "m"), V: genVec(t, "array", r, dInt, "v")}
	ops := refMatOps
	if kind == "vector" || kind == "vectorDataRef" {
		ops = refVecOps
	}
	for n := 1 + pick(t, 7, "steps"); n > 0; n-- {
		i, i2 := genRange(t, r, "i")
		j, j2 := genRange(t, k, "j")
		c.Ops = append(c.Ops, RefOp{oneOf(t, ops, "op"), i, j, i2 - i + 1, j2 - j + 1, F(float64(1 + pick(t, 40, "x")))})
	}
	return c
}

// bound ties one place of an object to one place of the slices.
type bound struct {
	place string
	read  func() float64
	slot  *float64
}

func checkRefHist(c RefHistCase, o *Obs) error {
	o.Label(c.Kind)
	o.NonTrivial(len(c.Ops) > 1)
	var places []bound
	var do func(op RefOp)
	var w [][]float64 // the caller's rows
	n := len(c.V.vals())
	switch c.Kind {
	case "array", "arrayDataRef":
		s := [][]float64(c.M.dense().clone())
		m := must(lin.NewArray2DRowRealMatrixFromSlices(s, c.Kind == "arrayDataRef"))
		if c.Kind == "arrayDataRef" {
			s = m.DataRef()
		}
		w = append(w, s...)
		for i := range w {
			for j := range w[i] {
				i, j := i, j
				places = append(places, bound{fmt.Sprintf("(%d,%d)", i, j), func() float64 { return m.At(i, j) }, &w[i][j]})
			}
		}
		do = func(op RefOp) { refMatOp(m, op, w, false) }
	case "diag", "diagDataRef":
		s := c.V.vals()
		s = append([]float64{}, s...)
		m := must(lin.NewDiagonalMatrix(s, c.Kind == "diagDataRef"))
		if c.Kind == "diagDataRef" {
			s = m.DataRef()
		}
		for i := range s {
			i := i
			places = append(places, bound{fmt.Sprint(i), func() float64 { return m.At(i, i) }, &s[i]})
		}
		do = func(op RefOp) { refMatOp(m, op, [][]float64{s}, true) }
	default:
		s := append([]float64{}, c.V.vals()...)
		v := must(lin.NewArrayRealVector(s, c.Kind == "vectorDataRef"))
		if c.Kind == "vectorDataRef" {
			s = v.DataRef()
		}
		for i := range s {
			i := i
			places = append(places, bound{fmt.Sprint(i), func() float64 { return v.At(i) }, &s[i]})
		}
		do = func(op RefOp) { refVecOp(v, op, s, n) }
	}
	for k, op := range c.Ops {
		o.Label(op.K)
		do(op)
		for _, p := range places {
			if got, want := p.read(), *p.slot; !same(got, want) {
				return fmt.Errorf("%s, step %d (%s): entry %s is %v and %v in the slices it shares", c.Kind, k, op.K, p.place, got, want)
			}
		}
	}
	// shared still, both ways
	for k, p := range places {
		*p.slot = float64(5000 + k)
	}
	for k, p := range places {
		if got := p.read(); got != float64(5000+k) {
			return fmt.Errorf("%s, after %d steps: entry %s is %v, after %v was written to the slices it shares", c.Kind, len(c.Ops), p.place, got, float64(5000+k))
		}
	}
	return nil
}

// refMatOp makes one write; diagonal matrices get diagonal arguments.
func refMatOp(m lin.RealMatrix, op RefOp, w [][]float64, diag bool) {
	x := float64(op.X)
	if diag {
		op.J, op.Q = op.I, op.P
	}
	r, k := m.RowDimension(), m.ColumnDimension()
	block := func(p, q int, on func(i, j int) bool) [][]float64 {
		b := make([][]float64, p)
		for i := range b {
			b[i] = make([]float64, q)
			for j := range b[i] {
				if !diag || on(i, j) {
					b[i][j] = x + float64(3*i+2*j)
				}
			}
		}
		return b
	}
	row := func() [][]float64 { return block(1, k, func(i, j int) bool { return j == op.I }) }
	col := func() [][]float64 { return block(r, 1, func(i, j int) bool { return i == op.J }) }
	flat := func(b [][]float64) []float64 {
		f := []float64{}
		for i := range b {
			f = append(f, b[i]...)
		}
		return f
	}
	up := &recorder{f: func(i, j int, y float64) float64 {
		if diag && i != j {
			return y
		}
		return y + x
	}}
	switch op.K {
	case "SetEntry":
		m.SetEntry(op.I, op.J, x)
	case "AddToEntry":
		m.AddToEntry(op.I, op.J, x)
	case "MultiplyEntry":
		m.MultiplyEntry(op.I, op.J, 1+x/8)
	case "SetRow":
		m.SetRow(op.I, flat(row()))
	case "SetColumn":
		m.SetColumn(op.J, flat(col()))
	case "SetRowVector":
		m.SetRowVector(op.I, must(lin.NewArrayRealVectorFromSlice(flat(row()))))
	case "SetColumnVector":
		m.SetColumnVector(op.J, must(lin.NewArrayRealVectorFromSlice(flat(col()))))
	case "SetRowMatrix":
		m.SetRowMatrix(op.I, must(lin.NewArray2DRowRealMatrixFromSlices(row(), true)))
	case "SetColumnMatrix":
		m.SetColumnMatrix(op.J, must(lin.NewArray2DRowRealMatrixFromSlices(col(), true)))
	case "SetSubMatrix":
		m.SetSubMatrix(block(op.P, op.Q, func(i, j int) bool { return i == j }), op.I, op.J)
	case "WalkRow":
		m.WalkInUpdateRowOrder(changing{up})
	case "WalkColumn":
		m.WalkInUpdateColumnOrderBounded(changing{up}, op.I, op.I+op.P-1, op.J, op.J+op.Q-1)
	case "WalkOptimized":
		m.WalkInUpdateOptimizedOrder(changing{up})
	case "slice":
		if diag {
			w[0][op.I] = -x
		} else {
			w[op.I][op.J] = -x
		}
	case "read":
		m.Data()
		m.Transpose()
		m.Copy()
		m.SubMatrix(0, r-1, 0, k-1)
		m.ScalarMultiply(2)
		m.Operate(make([]float64, k))
		m.RowAt(op.I)
		m.ColumnAt(op.J)
	}
}

func refVecOp(v *lin.ArrayRealVector, op RefOp, s []float64, n int) {
	x := float64(op.X)
	part := make([]float64, op.P)
	for i := range part {
		part[i] = x + float64(3*i)
	}
	full := make([]float64, n)
	for i := range full {
		full[i] = x - float64(2*i)
	}
	up := &vrecorder{f: func(i int, y float64) float64 { return y + x }}
	switch op.K {
	case "SetEntry":
		v.SetEntry(op.I, x)
	case "AddToEntry":
		v.AddToEntry(op.I, x)
	case "Set":
		v.Set(x)
	case "Map":
		v.Map(mapF)
	case "MapAdd":
		v.MapAdd(x)
	case "MapSubtract":
		v.MapSubtract(x)
	case "MapMultiply":
		v.MapMultiply(1 + x/8)
	case "MapDivide":
		v.MapDivide(1 + x/8)
	case "Unitize":
		if lin.VecNorm(v) > 0 {
			v.Unitize()
		}
	case "CopyFrom":
		v.CopyFrom(must(lin.NewArrayRealVectorFromSlice(full)))
	case "Combine":
		v.Combine(2, x, must(lin.NewArrayRealVectorFromSlice(full)))
	case "SetSubVector":
		v.SetSubVector(op.I, must(lin.NewArrayRealVectorFromSlice(part)))
	case "SetSubVectorWithSlice":
		v.SetSubVectorWithSlice(op.I, part)
	case "WalkDefault":
		v.WalkInUpdateDefaultOrder(vchanging{up})
	case "WalkOptimized":
		v.WalkInUpdateOptimizedOrderBounded(vchanging{up}, op.I, op.I+op.P-1)
	case "slice":
		s[op.I] = -x
	case "read":
		v.ToArray()
		v.Copy()
		v.Append(1)
		v.SubVector(op.I, op.P)
		v.Add(v)
		lin.UnitVector(must(lin.NewArrayRealVectorFromSlice([]float64{1})))
	}
}

func init() {
	Register("C06", "references-history", "objects that share their storage go on sharing it, place by place, through every write made to either side; non-trivial: several writes",
		150000, 3000000, genRefHist, checkRefHist)
}
