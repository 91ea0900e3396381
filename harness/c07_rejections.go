package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// RejectCase is one invalid request: an operation with a nonempty set of faults.
type RejectCase struct {
	Op     string `json:"op"`
	Faults []int  `json:"faults"` // positions in the operation's list
	Rep    string `json:"rep"`
	Rep2   string `json:"rep2"`
	Vec    string `json:"vec"`
	R      int    `json:"r"`
	C      int    `json:"c"`
	Seed   uint64 `json:"seed"`
}

// fault: what is wrong, and the statuses that name it.
type fault struct {
	name string
	st   []int
}

var (
	stIndex = []int{lin.ERANGE}
	stRange = []int{lin.ERANGE, lin.ENSMALL}
	stDims  = []int{lin.EDIM, lin.EMATDIM, lin.EMULTIDIM}
	// nothing where something is needed: no value, no data, or a size of 0
	stNothing = []int{lin.EINV, lin.ENODAT, lin.ENOTSPOS}
)

func one(st ...int) []int { return st }

// request is one operation with what can be wrong with it.
type request struct {
	faults []fault
	square bool // needs a square matrix to be valid otherwise
	run    func(e *rejEnv)
}

type rejEnv struct {
	c    RejectCase
	r    *splitmix
	m    lin.RealMatrix
	d    Dense
	v    lin.RealVector
	vd   []float64
	on   map[string]bool
	diag bool
	keep []func() error

	lens [][2]int // lengths that are wrong, with what they should be
	outs [][2]int // indices that are out of range, with the number of valid ones
}

// bad is an index outside 0..n-1.
func (e *rejEnv) bad(n int) int {
	return []int{-1, n, -2, n + 1, -n - 1, n + 52, -52, math.MaxInt64, math.MinInt64, 2*n + 3}[e.r.intn(10)]
}

func (e *rejEnv) idx(f string, n int) int {
	if e.on[f] {
		k := e.bad(n)
		e.outs = append(e.outs, [2]int{k, n})
		return k
	}
	return e.r.intn(n)
}

// badSize: a length that is not n, at least 0.
func (e *rejEnv) size(f string, n int) int {
	if !e.on[f] {
		return n
	}
	for {
		k := []int{n + 1, n - 1, 0, n + 52, 2 * n, 1, n / 2}[e.r.intn(7)]
		if k >= 0 && k != n {
			e.lens = append(e.lens, [2]int{k, n})
			return k
		}
	}
}

// dim: a dimension of a matrix that is not n, at least 1.
func (e *rejEnv) dim(f string, n int) int {
	for {
		k := e.size(f, n)
		if k > 0 {
			return k
		}
		e.lens = e.lens[:len(e.lens)-1]
	}
}

func (e *rejEnv) val() float64 {
	if e.diag {
		return 0 // nothing a diagonal matrix refuses for its own reasons
	}
	return float64(e.r.sym(9))
}

func (e *rejEnv) slice(n int) []float64 {
	s := make([]float64, n)
	if n == 0 && e.r.intn(2) == 0 {
		s = nil
	}
	for i := range s {
		s[i] = e.val()
	}
	w := append([]float64(nil), s...)
	e.keep = append(e.keep, func() error { return matchSlice("argument", s, w) })
	return s
}

func (e *rejEnv) vector(n int) lin.RealVector {
	w := make([]float64, n)
	for i := range w {
		w[i] = e.val()
	}
	v := buildVec(e.c.Vec, w)
	e.keep = append(e.keep, func() error { return matchVec("argument", v, w) })
	return v
}

func (e *rejEnv) matrix(r, c int) lin.RealMatrix {
	w := newDense(r, c)
	for i := range w {
		for j := range w[i] {
			w[i][j] = e.val()
		}
	}
	m := buildMat(e.c.Rep2, w)
	e.keep = append(e.keep, func() error { return matchModel("argument", m, w) })
	return m
}

func (e *rejEnv) grid(r, c int) [][]float64 {
	g := make([][]float64, r)
	for i := range g {
		g[i] = make([]float64, c)
		for j := range g[i] {
			g[i][j] = e.val()
		}
	}
	e.keepGrid(g)
	return g
}

func (e *rejEnv) keepGrid(g [][]float64) {
	w := make([][]float64, len(g))
	for i := range g {
		w[i] = append([]float64(nil), g[i]...)
	}
	e.keep = append(e.keep, func() error {
		for i := range w {
			if err := matchSlice(fmt.Sprintf("argument row %d", i), g[i], w[i]); err != nil {
				return err
			}
		}
		return nil
	})
}

// spoilt makes nested slices with the chosen fault: nil, empty, emptyrow or ragged.
func (e *rejEnv) spoilt(r, c int) [][]float64 {
	switch {
	case e.on["nil"]:
		return nil
	case e.on["empty"]:
		return [][]float64{}
	case e.on["emptyrow"]:
		g := make([][]float64, r)
		for i := range g {
			if e.r.intn(2) == 0 {
				g[i] = []float64{}
			}
		}
		return g
	}
	g := make([][]float64, r)
	for i := range g {
		g[i] = make([]float64, c)
		for j := range g[i] {
			g[i][j] = e.val()
		}
	}
	if e.on["ragged"] {
		i := 1 + e.r.intn(r-1)
		k := e.size("ragged", c)
		g[i] = make([]float64, k)
		if k == 0 {
			g[i] = nil
		}
	}
	e.keepGrid(g)
	return g
}

// rng is a range within 0..n-1, or one that is out of it or inverted.
func (e *rejEnv) rng(f string, n int) (int, int) {
	a, b := e.r.intn(n), e.r.intn(n)
	if a > b {
		a, b = b, a
	}
	if e.on[f] {
		switch e.r.intn(4) {
		case 0:
			a = e.bad(n)
		case 1:
			b = e.bad(n)
		case 2:
			a, b = e.bad(n), e.bad(n)
		default:
			if a == b {
				if a > 0 {
					b = a - 1
				} else {
					b = -1
				}
			} else {
				a, b = b, a
			}
		}
	}
	return a, b
}

// noVisit must never be reached.
type noVisit struct{ visits *int }

func (v noVisit) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (v noVisit) End() float64                                                      { return 0 }

type noVisitRead struct{ noVisit }
type noVisitWrite struct{ noVisit }

func (v noVisitRead) Visit(row, column int, value float64)          { *v.visits++ }
func (v noVisitWrite) Visit(row, column int, value float64) float64 { *v.visits++; return value + 1 }

type noVecVisit struct{ visits *int }

func (v noVecVisit) Start(dimension, start, end int) {}
func (v noVecVisit) End() float64                    { return 0 }

type noVecRead struct{ noVecVisit }
type noVecWrite struct{ noVecVisit }

func (v noVecRead) Visit(index int, value float64)          { *v.visits++ }
func (v noVecWrite) Visit(index int, value float64) float64 { *v.visits++; return value + 1 }

func (e *rejEnv) counter() *int {
	n := new(int)
	e.keep = append(e.keep, func() error {
		if *n != 0 {
			return fmt.Errorf("%d entries were visited", *n)
		}
		return nil
	})
	return n
}

// list of indices into 0..n-1, with a fault: nil, empty or one out of range.
func (e *rejEnv) list(which string, n int) []int {
	switch {
	case e.on["nil "+which]:
		return nil
	case e.on["empty "+which]:
		return []int{}
	}
	l := make([]int, 1+e.r.intn(5))
	for i := range l {
		l[i] = e.r.intn(n)
	}
	if e.on[which] {
		l[e.r.intn(len(l))] = e.bad(n)
	}
	return l
}

// destination of at least r x c, or too small.
func (e *rejEnv) destination(r, c int) [][]float64 {
	switch {
	case e.on["nil destination"]:
		return nil
	case e.on["few rows"]:
		g := e.grid(e.r.intn(r), c+e.r.intn(2))
		return g
	case e.on["short row"]:
		g := make([][]float64, r+e.r.intn(2))
		k := e.r.intn(r)
		for i := range g {
			w := c + e.r.intn(2)
			if i == k {
				w = e.r.intn(c)
			}
			g[i] = make([]float64, w)
			for j := range g[i] {
				g[i][j] = 7
			}
		}
		e.keepGrid(g)
		return g
	}
	return e.grid(r+e.r.intn(2), c+e.r.intn(2))
}

// throw turns a constructor's error into what refuses.
func throw(err error) {
	if err != nil {
		panic(err)
	}
}

var fIJ = []fault{{"row", stIndex}, {"column", stIndex}}
var fSelect = []fault{{"rows", stIndex}, {"columns", stIndex}, {"nil rows", stNothing}, {"empty rows", stNothing}, {"nil columns", stNothing}, {"empty columns", stNothing}}
var fDest = []fault{{"nil destination", append(append([]int{}, stNothing...), stDims...)}, {"few rows", stDims}, {"short row", stDims}}
var fSlices = []fault{{"nil", stNothing}, {"empty", stNothing}, {"emptyrow", stNothing}, {"ragged", stDims}}
var fSizes = []fault{{"rows", one(lin.ENOTSPOS)}, {"columns", one(lin.ENOTSPOS)}}

func with(a []fault, b ...fault) []fault { return append(append([]fault{}, a...), b...) }

var matrixRequests = map[string]request{
	"At":             {faults: fIJ, run: func(e *rejEnv) { e.m.At(e.idx("row", e.c.R), e.idx("column", e.c.C)) }},
	"SetEntry":       {faults: fIJ, run: func(e *rejEnv) { e.m.SetEntry(e.idx("row", e.c.R), e.idx("column", e.c.C), e.val()) }},
	"AddToEntry":     {faults: fIJ, run: func(e *rejEnv) { e.m.AddToEntry(e.idx("row", e.c.R), e.idx("column", e.c.C), e.val()) }},
	"MultiplyEntry":  {faults: fIJ, run: func(e *rejEnv) { e.m.MultiplyEntry(e.idx("row", e.c.R), e.idx("column", e.c.C), 3) }},
	"RowAt":          {faults: fIJ[:1], run: func(e *rejEnv) { e.m.RowAt(e.idx("row", e.c.R)) }},
	"RowVectorAt":    {faults: fIJ[:1], run: func(e *rejEnv) { e.m.RowVectorAt(e.idx("row", e.c.R)) }},
	"RowMatrixAt":    {faults: fIJ[:1], run: func(e *rejEnv) { e.m.RowMatrixAt(e.idx("row", e.c.R)) }},
	"ColumnAt":       {faults: fIJ[1:], run: func(e *rejEnv) { e.m.ColumnAt(e.idx("column", e.c.C)) }},
	"ColumnVectorAt": {faults: fIJ[1:], run: func(e *rejEnv) { e.m.ColumnVectorAt(e.idx("column", e.c.C)) }},
	"ColumnMatrixAt": {faults: fIJ[1:], run: func(e *rejEnv) { e.m.ColumnMatrixAt(e.idx("column", e.c.C)) }},
	"SetRow": {faults: with(fIJ[:1], fault{"length", stDims}), run: func(e *rejEnv) {
		e.m.SetRow(e.idx("row", e.c.R), e.slice(e.size("length", e.c.C)))
	}},
	"SetColumn": {faults: with(fIJ[1:], fault{"length", stDims}), run: func(e *rejEnv) {
		e.m.SetColumn(e.idx("column", e.c.C), e.slice(e.size("length", e.c.R)))
	}},
	"SetRowVector": {faults: with(fIJ[:1], fault{"length", stDims}), run: func(e *rejEnv) {
		e.m.SetRowVector(e.idx("row", e.c.R), e.vector(e.size("length", e.c.C)))
	}},
	"SetColumnVector": {faults: with(fIJ[1:], fault{"length", stDims}), run: func(e *rejEnv) {
		e.m.SetColumnVector(e.idx("column", e.c.C), e.vector(e.size("length", e.c.R)))
	}},
	"SetRowMatrix": {faults: with(fIJ[:1], fault{"length", stDims}, fault{"height", stDims}), run: func(e *rejEnv) {
		e.m.SetRowMatrix(e.idx("row", e.c.R), e.matrix(e.dim("height", 1), e.dim("length", e.c.C)))
	}},
	"SetColumnMatrix": {faults: with(fIJ[1:], fault{"length", stDims}, fault{"width", stDims}), run: func(e *rejEnv) {
		e.m.SetColumnMatrix(e.idx("column", e.c.C), e.matrix(e.dim("length", e.c.R), e.dim("width", 1)))
	}},
	"SubMatrix": {faults: []fault{{"rows", stRange}, {"columns", stRange}}, run: func(e *rejEnv) {
		a, b := e.rng("rows", e.c.R)
		c, d := e.rng("columns", e.c.C)
		e.m.SubMatrix(a, b, c, d)
	}},
	"SetSubMatrix": {faults: with(fSlices, fault{"row", stIndex}, fault{"column", stIndex}, fault{"too high", stIndex}, fault{"too wide", stIndex}), run: func(e *rejEnv) {
		i, j := e.r.intn(e.c.R), e.r.intn(e.c.C)
		h, w := 1+e.r.intn(e.c.R-i), 1+e.r.intn(e.c.C-j)
		if e.on["ragged"] && h < 2 {
			if e.c.R < 2 {
				h = 2 // too high as well: see the statuses
			} else {
				i, h = 0, 2
			}
		}
		if e.on["too high"] {
			h = e.c.R - i + 1 + e.r.intn(3)
		}
		if e.on["too wide"] {
			w = e.c.C - j + 1 + e.r.intn(3)
		}
		if e.on["row"] {
			i = e.bad(e.c.R)
		}
		if e.on["column"] {
			j = e.bad(e.c.C)
		}
		e.m.SetSubMatrix(e.spoilt(h, w), i, j)
	}},
	"Add": {faults: []fault{{"rows", stDims}, {"columns", stDims}}, run: func(e *rejEnv) {
		e.m.Add(e.matrix(e.dim("rows", e.c.R), e.dim("columns", e.c.C)))
	}},
	"Subtract": {faults: []fault{{"rows", stDims}, {"columns", stDims}}, run: func(e *rejEnv) {
		e.m.Subtract(e.matrix(e.dim("rows", e.c.R), e.dim("columns", e.c.C)))
	}},
	"Multiply": {faults: []fault{{"inner", stDims}}, run: func(e *rejEnv) {
		e.m.Multiply(e.matrix(e.dim("inner", e.c.C), 1+e.r.intn(4)))
	}},
	"PreMultiplyMatrix": {faults: []fault{{"inner", stDims}}, run: func(e *rejEnv) {
		e.m.PreMultiplyMatrix(e.matrix(1+e.r.intn(4), e.dim("inner", e.c.R)))
	}},
	"Operate":           {faults: []fault{{"length", stDims}}, run: func(e *rejEnv) { e.m.Operate(e.slice(e.size("length", e.c.C))) }},
	"OperateVector":     {faults: []fault{{"length", stDims}}, run: func(e *rejEnv) { e.m.OperateVector(e.vector(e.size("length", e.c.C))) }},
	"PreMultiply":       {faults: []fault{{"length", stDims}}, run: func(e *rejEnv) { e.m.PreMultiply(e.slice(e.size("length", e.c.R))) }},
	"PreMultiplyVector": {faults: []fault{{"length", stDims}}, run: func(e *rejEnv) { e.m.PreMultiplyVector(e.vector(e.size("length", e.c.R))) }},
	"Trace":             {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { e.m.Trace() }},
	"Power": {faults: []fault{{"not square", one(lin.ESQMAT)}, {"exponent", one(lin.ENOTPOS)}}, run: func(e *rejEnv) {
		p := e.r.intn(4)
		if e.on["exponent"] {
			p = []int{-1, -2, -7, math.MinInt64}[e.r.intn(4)]
		}
		lin.Power(e.m, p)
	}},
	"CopySubMatrix": {faults: with(fDest, fault{"rows", stRange}, fault{"columns", stRange}), run: func(e *rejEnv) {
		a, b := e.rng("rows", e.c.R)
		c, d := e.rng("columns", e.c.C)
		h, w := 2, 2
		if !e.on["rows"] {
			h = b - a + 1
		}
		if !e.on["columns"] {
			w = d - c + 1
		}
		lin.CopySubMatrix(e.m, a, b, c, d, e.destination(h, w))
	}},
	"CopySubMatrixFromIndices": {faults: with(fDest, fSelect...), run: func(e *rejEnv) {
		rows, cols := e.list("rows", e.c.R), e.list("columns", e.c.C)
		lin.CopySubMatrixFromIndices(e.m, rows, cols, e.destination(maxi(1, len(rows)), maxi(1, len(cols))))
	}},
	"select SubMatrix": {faults: fSelect, run: func(e *rejEnv) { lin.SubMatrix(e.m, e.list("rows", e.c.R), e.list("columns", e.c.C)) }},
	"LU":               {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewLUDecomposition(e.m); throw(err) }},
	"Cholesky":         {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewDefaultCholeskyDecomposition(e.m); throw(err) }},
	"root":             {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewRectangularCholeskyDecomposition(e.m); throw(err) }},
	"eigen":            {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewEigenDecomposition(e.m); throw(err) }},
	"Hessenberg":       {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewHessenbergTransformer(e.m); throw(err) }},
	"tridiagonal":      {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewTriDiagonalTransformer(e.m); throw(err) }},
	"Schur":            {faults: []fault{{"not square", one(lin.ESQMAT)}}, run: func(e *rejEnv) { _, err := lin.NewSchurTransformer(e.m); throw(err) }},
}

// walks, bounded: four orders, reading and updating.
func init() {
	for name, f := range map[string]func(m lin.RealMatrix, n *int, a, b, c, d int){
		"WalkInRowOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInRowOrderBounded(noVisitRead{noVisit{n}}, a, b, c, d)
		},
		"WalkInColumnOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInColumnOrderBounded(noVisitRead{noVisit{n}}, a, b, c, d)
		},
		"WalkInOptimizedOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInOptimizedOrderBounded(noVisitRead{noVisit{n}}, a, b, c, d)
		},
		"WalkInUpdateRowOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInUpdateRowOrderBounded(noVisitWrite{noVisit{n}}, a, b, c, d)
		},
		"WalkInUpdateColumnOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInUpdateColumnOrderBounded(noVisitWrite{noVisit{n}}, a, b, c, d)
		},
		"WalkInUpdateOptimizedOrderBounded": func(m lin.RealMatrix, n *int, a, b, c, d int) {
			m.WalkInUpdateOptimizedOrderBounded(noVisitWrite{noVisit{n}}, a, b, c, d)
		},
	} {
		f := f
		matrixRequests[name] = request{faults: []fault{{"rows", stRange}, {"columns", stRange}}, run: func(e *rejEnv) {
			a, b := e.rng("rows", e.c.R)
			c, d := e.rng("columns", e.c.C)
			f(e.m, e.counter(), a, b, c, d)
		}}
	}
	// solvers given a right-hand side of another height
	for name, f := range map[string]func(m lin.RealMatrix) (lin.DecompositionSolver, error){
		"LU": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewLUDecomposition(m)
			return x.Solver(), err
		},
		"QR": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewQRDecomposition(m)
			return x.Solver(), err
		},
		"RRQR": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewRRQRDecomposition(m)
			return x.Solver(), err
		},
		"SVD": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewSingularValueDecomposition(m)
			return x.Solver(), err
		},
		"Cholesky": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewDefaultCholeskyDecomposition(m)
			return x.Solver(), err
		},
		"eigen": func(m lin.RealMatrix) (lin.DecompositionSolver, error) {
			x, err := lin.NewEigenDecomposition(m)
			return x.Solver(), err
		},
	} {
		name, f := name, f
		square := name != "QR" && name != "RRQR" && name != "SVD"
		definite := func(e *rejEnv) lin.DecompositionSolver {
			// symmetric positive definite, or the like of it when not square
			d := newDense(e.c.R, e.c.C)
			for i := range d {
				for j := range d[i] {
					d[i][j] = 1 / float64(1+i+j)
					if i == j {
						d[i][j] += float64(e.c.R + e.c.C)
					}
				}
			}
			rep := e.c.Rep
			if rep == "diag" {
				rep = "array"
			}
			return must(f(buildMat(rep, d)))
		}
		matrixRequests[name+" SolveVector"] = request{square: square, faults: []fault{{"length", stDims}}, run: func(e *rejEnv) {
			definite(e).SolveVector(e.vector(e.size("length", e.c.R)))
		}}
		matrixRequests[name+" SolveMatrix"] = request{square: square, faults: []fault{{"height", stDims}}, run: func(e *rejEnv) {
			definite(e).SolveMatrix(e.matrix(e.dim("height", e.c.R), 1+e.r.intn(3)))
		}}
	}
}

// constructors: no matrix to start from.
var constructorRequests = map[string]request{
	"NewArray2DRowRealMatrix": {faults: fSizes, run: func(e *rejEnv) {
		_, err := lin.NewArray2DRowRealMatrix(e.count("rows"), e.count("columns"))
		throw(err)
	}},
	"NewBlockRealMatrix": {faults: fSizes, run: func(e *rejEnv) { _, err := lin.NewBlockRealMatrix(e.count("rows"), e.count("columns")); throw(err) }},
	"NewRealMatrixWithDimension": {faults: fSizes, run: func(e *rejEnv) {
		_, err := lin.NewRealMatrixWithDimension(e.count("rows"), e.count("columns"))
		throw(err)
	}},
	"NewRealIdentityMatrix": {faults: fSizes[:1], run: func(e *rejEnv) { _, err := lin.NewRealIdentityMatrix(e.count("rows")); throw(err) }},
	"NewDiagonalMatrixWithDimension": {faults: fSizes[:1], run: func(e *rejEnv) {
		_, err := lin.NewDiagonalMatrixWithDimension(e.count("rows"))
		throw(err)
	}},
	"NewArray2DRowRealMatrixFromSlices": {faults: fSlices, run: func(e *rejEnv) {
		_, err := lin.NewArray2DRowRealMatrixFromSlices(e.spoilt(maxi(2, e.c.R), e.c.C), true)
		throw(err)
	}},
	"NewArray2DRowRealMatrixFromSlices sharing": {faults: fSlices, run: func(e *rejEnv) {
		_, err := lin.NewArray2DRowRealMatrixFromSlices(e.spoilt(maxi(2, e.c.R), e.c.C), false)
		throw(err)
	}},
	"NewBlockRealMatrixFromSlices": {faults: fSlices, run: func(e *rejEnv) {
		_, err := lin.NewBlockRealMatrixFromSlices(e.spoilt(maxi(2, e.c.R), e.c.C))
		throw(err)
	}},
	"NewRealMatrixFromSlices": {faults: fSlices, run: func(e *rejEnv) {
		_, err := lin.NewRealMatrixFromSlices(e.spoilt(maxi(2, e.c.R), e.c.C))
		throw(err)
	}},
	"NewArray2DRowRealMatrixFromSlice": {faults: []fault{{"nil", stNothing}, {"empty", stNothing}}, run: func(e *rejEnv) {
		_, err := lin.NewArray2DRowRealMatrixFromSlice(e.spoiltSlice())
		throw(err)
	}},
	"NewDiagonalMatrix": {faults: []fault{{"nil", stNothing}, {"empty", stNothing}}, run: func(e *rejEnv) {
		_, err := lin.NewDiagonalMatrix(e.spoiltSlice(), e.r.intn(2) == 0)
		throw(err)
	}},
	"NewDiagonalMatrixFromSlice": {faults: []fault{{"nil", stNothing}, {"empty", stNothing}}, run: func(e *rejEnv) {
		_, err := lin.NewDiagonalMatrixFromSlice(e.spoiltSlice())
		throw(err)
	}},
	"NewRealDiagonalMatrix": {faults: []fault{{"nil", stNothing}, {"empty", stNothing}}, run: func(e *rejEnv) {
		_, err := lin.NewRealDiagonalMatrix(e.spoiltSlice())
		throw(err)
	}},
	"NewRealMatrixWithDiagonal": {faults: []fault{{"nil", stNothing}, {"empty", stNothing}}, run: func(e *rejEnv) {
		_, err := lin.NewRealMatrixWithDiagonal(e.spoiltSlice())
		throw(err)
	}},
	"NewBlockRealMatrixFromBlockData": {faults: []fault{{"rows", one(lin.ENOTSPOS)}, {"columns", one(lin.ENOTSPOS)}, {"block size", stDims}, {"few blocks", stDims}, {"many blocks", stDims}}, run: func(e *rejEnv) {
		var blocks [][]float64
		for p := 0; p < e.c.R; p += lin.BLOCK_SIZE {
			for q := 0; q < e.c.C; q += lin.BLOCK_SIZE {
				blocks = append(blocks, e.slice(mini(lin.BLOCK_SIZE, e.c.R-p)*mini(lin.BLOCK_SIZE, e.c.C-q)))
			}
		}
		if e.on["block size"] {
			k := e.r.intn(len(blocks))
			blocks[k] = e.slice(e.size("block size", len(blocks[k])))
		}
		if e.on["few blocks"] {
			blocks = blocks[:e.r.intn(len(blocks))]
		} else if e.on["many blocks"] {
			blocks = append(blocks, e.slice(e.r.intn(5)))
		}
		r, c := e.c.R, e.c.C
		if e.on["rows"] {
			r = e.count("rows")
		}
		if e.on["columns"] {
			c = e.count("columns")
		}
		_, err := lin.NewBlockRealMatrixFromBlockData(r, c, blocks)
		throw(err)
	}},
	"NewEigenDecompositionFromTridiagonal": {faults: []fault{{"nil", append(append([]int{}, stNothing...), stDims...)}, {"empty", append(append([]int{}, stNothing...), stDims...)}, {"short", stDims}}, run: func(e *rejEnv) {
		n := 2 + e.r.intn(6)
		main, sec := e.slice(n), e.slice(n-1)
		switch {
		case e.on["nil"]:
			main = nil
		case e.on["empty"]:
			main = []float64{}
		case e.on["short"]:
			sec = sec[:e.r.intn(n-1)]
		}
		_, err := lin.NewEigenDecompositionFromTridiagonal(main, sec)
		throw(err)
	}},
	"NewArrayRealVector":          {faults: []fault{{"nil", one(lin.EINV)}}, run: func(e *rejEnv) { _, err := lin.NewArrayRealVector(nil, e.r.intn(2) == 0); throw(err) }},
	"NewArrayRealVectorFromSlice": {faults: []fault{{"nil", one(lin.EINV)}}, run: func(e *rejEnv) { _, err := lin.NewArrayRealVectorFromSlice(nil); throw(err) }},
	"NewRealVector":               {faults: []fault{{"nil", one(lin.EINV)}}, run: func(e *rejEnv) { _, err := lin.NewRealVector(nil); throw(err) }},
	"NewArrayRealVectorCopy":      {faults: []fault{{"nil", one(lin.EINV)}}, run: func(e *rejEnv) { _, err := lin.NewArrayRealVectorCopy(nil); throw(err) }},
	"NewArrayRealVectorFromTwoArrayRealVector": {faults: []fault{{"nil first", one(lin.EINV)}, {"nil second", one(lin.EINV)}}, run: func(e *rejEnv) {
		v, w := must(lin.NewArrayRealVectorFromSlice(e.slice(1+e.r.intn(6)))), must(lin.NewArrayRealVectorFromSlice(e.slice(1+e.r.intn(6))))
		if e.on["nil first"] {
			v = nil
		}
		if e.on["nil second"] {
			w = nil
		}
		_, err := lin.NewArrayRealVectorFromTwoArrayRealVector(v, w)
		throw(err)
	}},
	"NewArrayRealVectorFromTwoRealVector": {faults: []fault{{"nil first", one(lin.EINV)}, {"nil second", one(lin.EINV)}}, run: func(e *rejEnv) {
		var v, w lin.RealVector = must(lin.NewArrayRealVectorFromSlice(e.slice(1 + e.r.intn(6)))), must(lin.NewArrayRealVectorFromSlice(e.slice(1 + e.r.intn(6))))
		if e.on["nil first"] {
			v = nil
		}
		if e.on["nil second"] {
			w = nil
		}
		_, err := lin.NewArrayRealVectorFromTwoRealVector(v, w)
		throw(err)
	}},
	"NewSizedArrayRealVector": {faults: []fault{{"size", one(lin.ENOTPOS, lin.ENOTSPOS)}}, run: func(e *rejEnv) {
		_, err := lin.NewSizedArrayRealVector(-1 - e.r.intn(5))
		throw(err)
	}},
	"NewSizedArrayRealVectorWithPreset": {faults: []fault{{"size", one(lin.ENOTPOS, lin.ENOTSPOS)}}, run: func(e *rejEnv) {
		_, err := lin.NewSizedArrayRealVectorWithPreset(-1-e.r.intn(5), 2)
		throw(err)
	}},
	"zero matrix SetSubMatrix": {faults: with(fSlices, fault{"row", one(lin.ERANGE, lin.EILLSTATE)}, fault{"column", one(lin.ERANGE, lin.EILLSTATE)}), run: func(e *rejEnv) {
		m := new(lin.Array2DRowRealMatrix)
		e.keep = append(e.keep, func() error {
			if m.RowDimension() != 0 {
				return fmt.Errorf("the empty matrix has %d rows now", m.RowDimension())
			}
			return nil
		})
		i, j := 0, 0
		if e.on["row"] {
			i = []int{-1, 1, 7, -3}[e.r.intn(4)]
		}
		if e.on["column"] {
			j = []int{-1, 1, 7, -3}[e.r.intn(4)]
		}
		m.SetSubMatrix(e.spoilt(maxi(2, e.c.R), e.c.C), i, j)
	}},
}

func (e *rejEnv) count(f string) int {
	if e.on[f] {
		return []int{0, -1, -2, -52, math.MinInt32}[e.r.intn(5)]
	}
	return 1 + e.r.intn(6)
}

func (e *rejEnv) spoiltSlice() []float64 {
	if e.on["nil"] {
		return nil
	}
	return []float64{}
}

// vectors: e.v has e.c.R entries.
var vectorRequests = map[string]request{
	"At":         {faults: fIJ[:1], run: func(e *rejEnv) { e.v.At(e.idx("row", e.c.R)) }},
	"SetEntry":   {faults: fIJ[:1], run: func(e *rejEnv) { e.v.SetEntry(e.idx("row", e.c.R), 3) }},
	"AddToEntry": {faults: fIJ[:1], run: func(e *rejEnv) { e.v.AddToEntry(e.idx("row", e.c.R), 3) }},
	"SubVector": {faults: []fault{{"index", stIndex}, {"count", one(lin.ENOTPOS, lin.ENOTSPOS)}, {"long", stIndex}}, run: func(e *rejEnv) {
		i := e.idx("index", e.c.R)
		n := 1
		if !e.on["index"] {
			n = 1 + e.r.intn(e.c.R-i)
			if e.on["long"] {
				n = e.c.R - i + 1 + e.r.intn(3)
				if e.r.intn(4) == 0 {
					n = math.MaxInt64
				}
			}
		}
		if e.on["count"] {
			n = -1 - e.r.intn(5)
		}
		e.v.SubVector(i, n)
	}},
	"SetSubVector": {faults: []fault{{"index", stIndex}, {"long", stIndex}}, run: func(e *rejEnv) {
		i := e.idx("index", e.c.R)
		n := 1
		if !e.on["index"] {
			n = 1 + e.r.intn(e.c.R-i)
			if e.on["long"] {
				n = e.c.R - i + 1 + e.r.intn(3)
			}
		}
		e.v.SetSubVector(i, e.vector(n))
	}},
	"Unitize":    {faults: []fault{{"zero", one(lin.EARITH)}}, run: func(e *rejEnv) { e.v.Unitize() }},
	"UnitVector": {faults: []fault{{"zero", one(lin.EARITH)}}, run: func(e *rejEnv) { lin.UnitVector(e.v) }},
	"VecCosine": {faults: []fault{{"zero", one(lin.EARITH)}, {"length", stDims}}, run: func(e *rejEnv) {
		if e.on["zero"] && e.r.intn(2) == 0 && !e.on["length"] {
			lin.VecCosine(must(lin.NewSizedArrayRealVectorWithPreset(e.c.R, 2)), e.v)
		}
		lin.VecCosine(e.v, e.vector(e.size("length", e.c.R)))
	}},
}

func init() {
	pairs := map[string]func(v, w lin.RealVector){
		"Add":             func(v, w lin.RealVector) { v.Add(w) },
		"Subtract":        func(v, w lin.RealVector) { v.Subtract(w) },
		"EBEMultiply":     func(v, w lin.RealVector) { v.EBEMultiply(w) },
		"EBEDivide":       func(v, w lin.RealVector) { v.EBEDivide(w) },
		"Combine":         func(v, w lin.RealVector) { v.Combine(2, 3, w) },
		"CopyFrom":        func(v, w lin.RealVector) { v.CopyFrom(w) },
		"VecDotProduct":   func(v, w lin.RealVector) { lin.VecDotProduct(v, w) },
		"VecDistance":     func(v, w lin.RealVector) { lin.VecDistance(v, w) },
		"VecL1Distance":   func(v, w lin.RealVector) { lin.VecL1Distance(v, w) },
		"VecLInfDistance": func(v, w lin.RealVector) { lin.VecLInfDistance(v, w) },
		"Projection":      func(v, w lin.RealVector) { lin.Projection(v, w) },
	}
	for name, f := range pairs {
		f := f
		vectorRequests[name] = request{faults: []fault{{"length", stDims}}, run: func(e *rejEnv) { f(e.v, e.vector(e.size("length", e.c.R))) }}
	}
	for name, f := range map[string]func(v lin.RealVector, n *int, a, b int){
		"WalkInDefaultOrderBounded": func(v lin.RealVector, n *int, a, b int) { v.WalkInDefaultOrderBounded(noVecRead{noVecVisit{n}}, a, b) },
		"WalkInOptimizedOrderBounded": func(v lin.RealVector, n *int, a, b int) {
			v.WalkInOptimizedOrderBounded(noVecRead{noVecVisit{n}}, a, b)
		},
		"WalkInUpdateDefaultOrderBounded": func(v lin.RealVector, n *int, a, b int) {
			v.WalkInUpdateDefaultOrderBounded(noVecWrite{noVecVisit{n}}, a, b)
		},
		"WalkInUpdateOptimizedOrderBounded": func(v lin.RealVector, n *int, a, b int) {
			v.WalkInUpdateOptimizedOrderBounded(noVecWrite{noVecVisit{n}}, a, b)
		},
	} {
		f := f
		vectorRequests[name] = request{faults: []fault{{"range", stRange}}, run: func(e *rejEnv) {
			a, b := e.rng("range", e.c.R)
			f(e.v, e.counter(), a, b)
		}}
	}
}

// names: the refusal p of a request whose one fault is a length or an index
// tells which, and what it should have been.
func (e *rejEnv) names(what string, p interface{}) error {
	one, _ := p.(interface{ Argument() float64 })
	two, _ := p.(interface {
		WrongDimensions() []int
		ExpectedDimensions() []int
	})
	rng, _ := p.(interface {
		Low() float64
		High() float64
	})
	if len(e.lens) == 1 {
		k, n := e.lens[0][0], e.lens[0][1]
		if two != nil {
			w, x := two.WrongDimensions(), two.ExpectedDimensions()
			diff := 0
			for i := range w {
				if w[i] != x[i] {
					diff++
					if !(w[i] == k && x[i] == n || w[i] == n && x[i] == k) {
						diff = 99
					}
				}
			}
			if diff != 1 {
				return fmt.Errorf("%s: refused with dimensions %v where %v are expected, though only a length of %d should be %d", what, w, x, k, n)
			}
		} else if one != nil && rng == nil && one.Argument() != float64(k) && one.Argument() != float64(n) {
			return fmt.Errorf("%s: refused because of a length of %v, when one of %d should be %d", what, one.Argument(), k, n)
		}
	}
	if len(e.outs) == 1 && rng != nil && one != nil {
		k, n := e.outs[0][0], e.outs[0][1]
		if one.Argument() != float64(k) || rng.Low() != 0 || rng.High() != float64(n-1) {
			return fmt.Errorf("%s: refused because of index %v outside of %v to %v, when %d is outside of 0 to %d", what, one.Argument(), rng.Low(), rng.High(), k, n-1)
		}
	}
	return nil
}

func requestNames(m map[string]request) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func checkReject(table map[string]request, vectors bool) func(c RejectCase, o *Obs) error {
	return func(c RejectCase, o *Obs) error {
		req, ok := table[c.Op]
		if !ok {
			hbug("request %q", c.Op)
		}
		e := &rejEnv{c: c, r: &splitmix{c.Seed}, on: map[string]bool{}, diag: c.Rep == "diag"}
		var sts []int
		what := c.Op
		for _, k := range c.Faults {
			f := req.faults[k]
			e.on[f.name] = true
			sts = append(sts, f.st...)
			what += ", " + f.name
		}
		o.Label(c.Op)
		o.NonTrivial(true)
		if e.on["ragged"] && c.R < 2 && c.Op == "SetSubMatrix" {
			sts = append(sts, lin.ERANGE)
		}
		if e.diag {
			// a part of a diagonal matrix may be refused for its shape first
			switch c.Op {
			case "SubMatrix", "RowMatrixAt", "ColumnMatrixAt":
				sts = append(sts, stDims...)
			}
		}
		if vectors && e.on["length"] {
			// a vector of no entries has no norm either
			switch c.Op {
			case "VecCosine", "Projection":
				sts = append(sts, lin.EARITH)
			}
		}
		if vectors {
			e.vd = make([]float64, c.R)
			for i := range e.vd {
				e.vd[i] = float64(e.r.sym(9))
			}
			e.vd[0] = 5
			if e.on["zero"] {
				e.vd = make([]float64, c.R)
			}
			e.v = buildVec(c.Rep, e.vd)
		} else {
			e.d = newDense(c.R, c.C)
			for i := range e.d {
				for j := range e.d[i] {
					if c.Rep != "diag" || i == j {
						e.d[i][j] = float64(1 + e.r.intn(9))
					}
				}
			}
			e.m = buildMat(c.Rep, e.d)
		}
		p := attempt(func() { req.run(e) })
		if err := refusedAs(what, p, sts...); err != nil {
			return err
		}
		if len(c.Faults) == 1 {
			if err := e.names(what, p); err != nil {
				return err
			}
		}
		for _, k := range e.keep {
			if err := k(); err != nil {
				return fmt.Errorf("%s, refused: %v", what, err)
			}
		}
		if vectors {
			return matchVec(what+", refused: the vector", e.v, e.vd)
		}
		return matchModel(what+", refused: the matrix", e.m, e.d)
	}
}

// genReject draws the operation, its faults, and dimensions for which the rest
// of the request is valid.
func genReject(table map[string]request, reps []string) func(t *rapid.T) RejectCase {
	names := requestNames(table)
	return func(t *rapid.T) RejectCase {
		c := RejectCase{Op: oneOf(t, names, "op"), Rep: genRep(t, reps, "rep"), Rep2: genRep(t, denseReps, "rep2"), Vec: oneOf(t, vecReps, "vec")}
		req := table[c.Op]
		c.R, c.C = genDim(t, 110, "r"), genDim(t, 60, "c")
		c.Faults = []int{pick(t, len(req.faults), "fault")}
		if pct(t, 20, "two") {
			if k := pick(t, len(req.faults), "fault2"); k != c.Faults[0] {
				c.Faults = append(c.Faults, k)
			}
		}
		square := c.Rep == "diag" || req.square
		switch c.Op {
		case "Trace", "Power":
			square = true
		}
		for _, k := range c.Faults {
			if req.faults[k].name == "not square" {
				square = false
				if c.Rep == "diag" {
					c.Rep = "array"
				}
				if c.R == c.C {
					c.C++
				}
			}
		}
		if square {
			c.C = c.R
		}
		c.Seed = uint64(pick(t, 1<<16, "seed"))
		return c
	}
}

func init() {
	Register("C07", "matrix", "every case: a request with at least one fault", 200000, 4000000, genReject(matrixRequests, allReps), checkReject(matrixRequests, false))
	Register("C07", "vector", "every case: a request with at least one fault", 80000, 1500000, genReject(vectorRequests, vecReps), checkReject(vectorRequests, true))
	Register("C07", "construction", "every case: a request with at least one fault", 50000, 800000, genReject(constructorRequests, denseReps), checkReject(constructorRequests, false))
}
