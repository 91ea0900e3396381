package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// Op is one read or write of a history on a matrix.
type Op struct {
	K  string `json:"k"`
	I  int    `json:"i,omitempty"`
	J  int    `json:"j,omitempty"`
	I2 int    `json:"i2,omitempty"`
	J2 int    `json:"j2,omitempty"`
	V  F      `json:"v,omitempty"`
	X  *Vec   `json:"x,omitempty"`
	M  *Mat   `json:"m,omitempty"`
}

type StorageCase struct {
	M   Mat  `json:"m"`
	Ops []Op `json:"ops"`
}

// genIdx draws an index 0..n-1, biased to the edges of storage blocks.
func genIdx(t *rapid.T, n int, label string) int {
	if n > 50 && rapid.Bool().Draw(t, label+"B") {
		var e []int
		for _, x := range []int{0, 50, 51, 52, 53, 103, 104, 105, 155, 156, n - 1, n - 2} {
			if x < n {
				e = append(e, x)
			}
		}
		return oneOf(t, e, label+"E")
	}
	return pick(t, n, label)
}

func genRange(t *rapid.T, n int, label string) (int, int) {
	a := genIdx(t, n, label+"a")
	b := genIdx(t, n, label+"b")
	if a > b {
		a, b = b, a
	}
	return a, b
}

var writeOps = []string{"SetEntry", "AddToEntry", "MultiplyEntry", "SetRow", "SetColumn", "SetRowVector", "SetColumnVector",
	"SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "SetSubMatrix", "WalkUpdate"}
var readOps = []string{"At", "RowAt", "ColumnAt", "RowVectorAt", "ColumnVectorAt", "RowMatrixAt", "ColumnMatrixAt", "Data", "SubMatrix", "SubMatrix", "Copy"}

func genOp(t *rapid.T, r, c int, dist string) Op {
	var o Op
	if pct(t, 60, "w") {
		o.K = oneOf(t, writeOps, "op")
	} else {
		o.K = oneOf(t, readOps, "op")
	}
	switch o.K {
	case "SetEntry", "AddToEntry", "MultiplyEntry":
		o.I, o.J = genIdx(t, r, "i"), genIdx(t, c, "j")
		o.V = F(genVal(t, dist, "v"))
	case "At":
		o.I, o.J = genIdx(t, r, "i"), genIdx(t, c, "j")
	case "SetRow", "SetRowVector", "SetRowMatrix":
		o.I = genIdx(t, r, "i")
		v := genVec(t, genRep(t, vecReps, "vrep"), c, dist, "x")
		o.X = &v
		if o.K == "SetRowMatrix" {
			m := genMat(t, genRep(t, denseReps, "mrep"), 1, c, dist, "x")
			o.X, o.M = nil, &m
		}
	case "SetColumn", "SetColumnVector", "SetColumnMatrix":
		o.J = genIdx(t, c, "j")
		v := genVec(t, genRep(t, vecReps, "vrep"), r, dist, "x")
		o.X = &v
		if o.K == "SetColumnMatrix" {
			m := genMat(t, genRep(t, denseReps, "mrep"), r, 1, dist, "x")
			o.X, o.M = nil, &m
		}
	case "SetSubMatrix":
		o.I, o.I2 = genRange(t, r, "i")
		o.J, o.J2 = genRange(t, c, "j")
		m := genMat(t, "array", o.I2-o.I+1, o.J2-o.J+1, dist, "x")
		o.M = &m
	case "SubMatrix", "WalkUpdate":
		o.I, o.I2 = genRange(t, r, "i")
		o.J, o.J2 = genRange(t, c, "j")
		o.V = F(genVal(t, dInt, "v"))
	case "RowAt", "RowVectorAt", "RowMatrixAt":
		o.I = genIdx(t, r, "i")
	case "ColumnAt", "ColumnVectorAt", "ColumnMatrixAt":
		o.J = genIdx(t, c, "j")
	}
	return o
}

type addVisitor struct{ v float64 }

func (a addVisitor) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (a addVisitor) Visit(row, column int, value float64) float64                      { return value + a.v }
func (a addVisitor) End() float64                                                      { return 0 }

// applyOp performs the operation on matrix and model and checks what it reads.
func applyOp(m lin.RealMatrix, d Dense, o Op) error {
	switch o.K {
	case "SetEntry":
		m.SetEntry(o.I, o.J, float64(o.V))
		d[o.I][o.J] = float64(o.V)
	case "AddToEntry":
		m.AddToEntry(o.I, o.J, float64(o.V))
		d[o.I][o.J] += float64(o.V)
	case "MultiplyEntry":
		m.MultiplyEntry(o.I, o.J, float64(o.V))
		d[o.I][o.J] *= float64(o.V)
	case "SetRow":
		v := o.X.vals()
		m.SetRow(o.I, v)
		copy(d[o.I], v)
	case "SetRowVector":
		v, vals := o.X.build()
		m.SetRowVector(o.I, v)
		copy(d[o.I], vals)
	case "SetRowMatrix":
		x, dx := o.M.build()
		m.SetRowMatrix(o.I, x)
		copy(d[o.I], dx[0])
	case "SetColumn":
		v := o.X.vals()
		m.SetColumn(o.J, v)
		for i := range d {
			d[i][o.J] = v[i]
		}
	case "SetColumnVector":
		v, vals := o.X.build()
		m.SetColumnVector(o.J, v)
		for i := range d {
			d[i][o.J] = vals[i]
		}
	case "SetColumnMatrix":
		x, dx := o.M.build()
		m.SetColumnMatrix(o.J, x)
		for i := range d {
			d[i][o.J] = dx[i][0]
		}
	case "SetSubMatrix":
		dx := o.M.dense()
		m.SetSubMatrix(dx, o.I, o.J)
		for i := range dx {
			copy(d[o.I+i][o.J:], dx[i])
		}
	case "WalkUpdate":
		m.WalkInUpdateOptimizedOrderBounded(addVisitor{float64(o.V)}, o.I, o.I2, o.J, o.J2)
		for i := o.I; i <= o.I2; i++ {
			for j := o.J; j <= o.J2; j++ {
				d[i][j] += float64(o.V)
			}
		}
	case "At":
		if g := m.At(o.I, o.J); !same(g, d[o.I][o.J]) {
			return fmt.Errorf("At(%d,%d) = %v, want %v", o.I, o.J, g, d[o.I][o.J])
		}
	case "RowAt":
		return matchSlice(fmt.Sprintf("RowAt(%d)", o.I), m.RowAt(o.I), d[o.I])
	case "RowVectorAt":
		return matchVec(fmt.Sprintf("RowVectorAt(%d)", o.I), m.RowVectorAt(o.I), d[o.I])
	case "RowMatrixAt":
		return matchModel(fmt.Sprintf("RowMatrixAt(%d)", o.I), m.RowMatrixAt(o.I), Dense{d[o.I]})
	case "ColumnAt":
		return matchSlice(fmt.Sprintf("ColumnAt(%d)", o.J), m.ColumnAt(o.J), col(d, o.J))
	case "ColumnVectorAt":
		return matchVec(fmt.Sprintf("ColumnVectorAt(%d)", o.J), m.ColumnVectorAt(o.J), col(d, o.J))
	case "ColumnMatrixAt":
		return matchModel(fmt.Sprintf("ColumnMatrixAt(%d)", o.J), m.ColumnMatrixAt(o.J), fromCol(col(d, o.J)))
	case "Data":
		g := m.Data()
		if len(g) != d.rows() {
			return fmt.Errorf("Data has %d rows, want %d", len(g), d.rows())
		}
		for i := range g {
			if err := matchSlice(fmt.Sprintf("Data row %d", i), g[i], d[i]); err != nil {
				return err
			}
		}
	case "SubMatrix":
		w := newDense(o.I2-o.I+1, o.J2-o.J+1)
		for i := range w {
			copy(w[i], d[o.I+i][o.J:o.J2+1])
		}
		return matchModel(fmt.Sprintf("SubMatrix(%d,%d,%d,%d)", o.I, o.I2, o.J, o.J2), m.SubMatrix(o.I, o.I2, o.J, o.J2), w)
	case "Copy":
		return matchModel("Copy", m.Copy(), d)
	default:
		hbug("op %q", o.K)
	}
	return nil
}

func isWrite(k string) bool {
	for _, w := range writeOps {
		if w == k {
			return true
		}
	}
	return false
}

func checkStorage(c StorageCase, o *Obs) error {
	m, d := c.M.build()
	if err := matchModel("after construction", m, d); err != nil {
		return err
	}
	writes, reads := 0, 0
	for k, op := range c.Ops {
		if isWrite(op.K) {
			writes++
		} else if writes > 0 {
			reads++
		}
		o.Label("op:" + op.K)
		if err := applyOp(m, d, op); err != nil {
			return fmt.Errorf("step %d: %v", k, err)
		}
		if err := matchModel(fmt.Sprintf("after step %d (%s)", k, op.K), m, d); err != nil {
			return err
		}
	}
	o.NonTrivial(writes >= 1)
	o.Label("rep:" + c.M.Rep)
	o.LabelIf(c.M.R > 52 || c.M.C > 52, "several-blocks")
	o.LabelIf(reads > 0, "read-after-write")
	return nil
}

func init() {
	Register("C01", "history", "random reads and writes (entries, rows, columns, vectors, row/column matrices, submatrices, updating walks) on a random matrix of any general representation, compared entry by entry with a plain 2-D array after every step; non-trivial: at least one write",
		4000, 60000,
		func(t *rapid.T) StorageCase {
			max := 120
			dist := oneOf(t, []string{dInt, dInt, dSpecial}, "dist")
			r, c := genDim(t, max, "r"), genDim(t, max, "c")
			m := genMat(t, genRep(t, denseReps, "rep"), r, c, dist, "m")
			n := 1 + pick(t, 10, "nops")
			cs := StorageCase{M: m}
			for i := 0; i < n; i++ {
				cs.Ops = append(cs.Ops, genOp(t, r, c, dist))
			}
			return cs
		}, checkStorage)

	type factoryCase struct {
		How  string `json:"how"`
		R, C int
		D    Mat `json:"d"`
		V    Vec `json:"v"`
		Ops  []Op
	}
	Register("C01", "construction", "every way to build a matrix (zero-filled, from nested slices with and without copy, from one slice as a column, from raw storage blocks, identity, diagonal, size-dependent factories) gives exactly the stated content and stays a faithful 2-D array under a following history; non-trivial: more than one entry",
		1500, 20000,
		func(t *rapid.T) factoryCase {
			how := oneOf(t, []string{"array0", "block0", "default0", "arraySlices", "arrayRef", "blockSlices", "defaultSlices", "column", "blockData", "identity", "diagDense", "diagReal", "diagRef", "diag0", "diagSlice"}, "how")
			r, c := genDim(t, 110, "r"), genDim(t, 110, "c")
			cs := factoryCase{How: how}
			switch how {
			case "identity", "diagDense", "diagReal", "diagRef", "diag0", "diagSlice":
				c = r
			case "column":
				c = 1
			}
			cs.R, cs.C = r, c
			cs.D = genMat(t, "array", r, c, dSpecial, "d")
			cs.V = genVec(t, "array", r, dSpecial, "v")
			if how[:4] != "diag" || how == "diagDense" {
				n := pick(t, 4, "nops")
				for i := 0; i < n; i++ {
					cs.Ops = append(cs.Ops, genOp(t, r, c, dSpecial))
				}
			}
			return cs
		},
		func(c factoryCase, o *Obs) error {
			var m lin.RealMatrix
			d := newDense(c.R, c.C)
			x := c.D.dense()
			v := c.V.vals()
			setDiag := func() {
				for i := range v {
					d[i][i] = v[i]
				}
			}
			switch c.How {
			case "array0":
				m = must(lin.NewArray2DRowRealMatrix(c.R, c.C))
			case "block0":
				m = must(lin.NewBlockRealMatrix(c.R, c.C))
			case "default0":
				m = must(lin.NewRealMatrixWithDimension(c.R, c.C))
			case "arraySlices":
				m, d = must(lin.NewArray2DRowRealMatrixFromSlices(x, true)), x.clone()
			case "arrayRef":
				m, d = must(lin.NewArray2DRowRealMatrixFromSlices(x, false)), x.clone()
			case "blockSlices":
				m, d = must(lin.NewBlockRealMatrixFromSlices(x)), x.clone()
			case "defaultSlices":
				m, d = must(lin.NewRealMatrixFromSlices(x)), x.clone()
			case "column":
				m, d = must(lin.NewArray2DRowRealMatrixFromSlice(v)), fromCol(v)
			case "blockData":
				// storage layout documented: BLOCK_SIZE x BLOCK_SIZE tiles in row-major order, each row-major
				var blocks [][]float64
				for p := 0; p < c.R; p += lin.BLOCK_SIZE {
					for q := 0; q < c.C; q += lin.BLOCK_SIZE {
						var b []float64
						for i := p; i < c.R && i < p+lin.BLOCK_SIZE; i++ {
							for j := q; j < c.C && j < q+lin.BLOCK_SIZE; j++ {
								b = append(b, x[i][j])
							}
						}
						blocks = append(blocks, b)
					}
				}
				m, d = must(lin.NewBlockRealMatrixFromBlockData(c.R, c.C, blocks)), x.clone()
			case "identity":
				m, d = must(lin.NewRealIdentityMatrix(c.R)), identity(c.R)
			case "diagDense":
				m = must(lin.NewRealMatrixWithDiagonal(v))
				setDiag()
			case "diagReal":
				m = must(lin.NewRealDiagonalMatrix(v))
				setDiag()
			case "diagRef":
				m = must(lin.NewDiagonalMatrix(v, false))
				setDiag()
			case "diagSlice":
				m = must(lin.NewDiagonalMatrixFromSlice(v))
				setDiag()
			case "diag0":
				m = must(lin.NewDiagonalMatrixWithDimension(c.R))
			}
			o.Label(c.How)
			o.NonTrivial(c.R*c.C > 1)
			o.LabelIf(c.R*c.C > 4096, "above-factory-threshold")
			if err := matchModel(c.How, m, d); err != nil {
				return err
			}
			for _, k := range []string{"Data", "Copy"} {
				if err := applyOp(m, d, Op{K: k}); err != nil {
					return err
				}
			}
			if lin.IsSquare(m) != (c.R == c.C) {
				return fmt.Errorf("IsSquare of %dx%d is %v", c.R, c.C, lin.IsSquare(m))
			}
			for k, op := range c.Ops {
				if err := applyOp(m, d, op); err != nil {
					return fmt.Errorf("step %d: %v", k, err)
				}
				if err := matchModel(fmt.Sprintf("after step %d (%s)", k, op.K), m, d); err != nil {
					return err
				}
			}
			return nil
		})
}
