package main

import (
	"fmt"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// OwnCase writes into a matrix values which are read from the matrix's own storage.
type OwnCase struct {
	Kind string `json:"kind"` // array: a slice per row; flat: rows cut from one slice; block: storage blocks
	R    int    `json:"r"`
	C    int    `json:"c"`
	Op   string `json:"op"`
	I    int    `json:"i"`
	J    int    `json:"j"`
	N    int    `json:"n"` // rows and columns of the submatrix
	M    int    `json:"m"`
	At   []int  `json:"at"` // where the values (of each row of the submatrix, each entry of the column matrix) start: modulo what there is
}

var ownOps = []string{"SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix"}

func (c OwnCase) build() (lin.RealMatrix, [][]float64) {
	switch c.Kind {
	case "array", "flat":
		flat := make([]float64, c.R*c.C)
		var rows, stores [][]float64
		for i := 0; i < c.R; i++ {
			row := flat[i*c.C : (i+1)*c.C]
			if c.Kind == "array" {
				row = make([]float64, c.C)
				stores = append(stores, row)
			}
			rows = append(rows, row)
		}
		if c.Kind == "flat" {
			stores = [][]float64{flat}
		}
		return must(lin.NewArray2DRowRealMatrixFromSlices(rows, false)), stores
	case "block":
		var blocks [][]float64
		for p := 0; p < c.R; p += lin.BLOCK_SIZE {
			for q := 0; q < c.C; q += lin.BLOCK_SIZE {
				blocks = append(blocks, make([]float64, min(c.R-p, lin.BLOCK_SIZE)*min(c.C-q, lin.BLOCK_SIZE)))
			}
		}
		return must(lin.NewBlockRealMatrixFromBlockData(c.R, c.C, blocks)), blocks
	}
	hbug("kind %q", c.Kind)
	return nil, nil
}

// view is n consecutive numbers of the storage, or nil where there are none.
func view(stores [][]float64, at, n int) []float64 {
	total := 0
	for _, s := range stores {
		if len(s) >= n {
			total += len(s) - n + 1
		}
	}
	if total == 0 {
		return nil
	}
	at %= total
	for _, s := range stores {
		if len(s) < n {
			continue
		}
		if at <= len(s)-n {
			return s[at : at+n : at+n]
		}
		at -= len(s) - n + 1
	}
	return nil
}

func checkOwn(c OwnCase, o *Obs) error {
	m, stores := c.build()
	d := newDense(c.R, c.C)
	for i := range d {
		for j := range d[i] {
			d[i][j] = float64(1 + i*c.C + j)
			m.SetEntry(i, j, d[i][j])
		}
	}
	n, rows := c.C, 1
	switch c.Op {
	case "SetColumn", "SetColumnVector":
		n = c.R
	case "SetColumnMatrix":
		n, rows = 1, c.R
	case "SetSubMatrix":
		n, rows = c.M, c.N
	}
	var x [][]float64
	for k := 0; k < rows; k++ {
		v := view(stores, c.At[k%len(c.At)]+k/len(c.At), n)
		if v == nil {
			o.Label("nothing that long")
			return nil
		}
		x = append(x, v)
	}
	val := newDense(rows, n)
	for k := range x {
		copy(val[k], x[k])
	}
	w := d.clone()
	switch c.Op {
	case "SetRow":
		m.SetRow(c.I, x[0])
		copy(w[c.I], val[0])
	case "SetRowVector":
		m.SetRowVector(c.I, must(lin.NewArrayRealVector(x[0], false)))
		copy(w[c.I], val[0])
	case "SetRowMatrix":
		m.SetRowMatrix(c.I, must(lin.NewArray2DRowRealMatrixFromSlices(x, false)))
		copy(w[c.I], val[0])
	case "SetColumn":
		m.SetColumn(c.J, x[0])
		for i := range w {
			w[i][c.J] = val[0][i]
		}
	case "SetColumnVector":
		m.SetColumnVector(c.J, must(lin.NewArrayRealVector(x[0], false)))
		for i := range w {
			w[i][c.J] = val[0][i]
		}
	case "SetColumnMatrix":
		m.SetColumnMatrix(c.J, must(lin.NewArray2DRowRealMatrixFromSlices(x, false)))
		for i := range w {
			w[i][c.J] = val[i][0]
		}
	case "SetSubMatrix":
		m.SetSubMatrix(x, c.I, c.J)
		for i := range val {
			copy(w[c.I+i][c.J:], val[i])
		}
	}
	o.Label(c.Op)
	o.Label(c.Kind)
	o.NonTrivial(c.R*c.C > 1)
	if err := matchModel(c.Op+" from its own storage", m, w); err != nil {
		return fmt.Errorf("%d,%d: %v", c.I, c.J, err)
	}
	return nil
}

func init() {
	Register("C01", "own-storage", "rows, columns, vectors, row and column matrices and submatrices written from arguments that are parts of the matrix's own storage (matrices built without copying); non-trivial: more than one entry",
		4000, 60000,
		func(t *rapid.T) OwnCase {
			c := OwnCase{Kind: oneOf(t, []string{"array", "flat", "block"}, "kind"), Op: oneOf(t, ownOps, "op"), R: 1 + pick(t, 6, "r"), C: 1 + pick(t, 6, "c")}
			if pct(t, 5, "large") {
				c.R, c.C = genDim(t, 110, "r2"), genDim(t, 110, "c2")
			}
			c.I, c.J = genIdx(t, c.R, "i"), genIdx(t, c.C, "j")
			c.N, c.M = 1+pick(t, c.R-c.I, "n"), 1+pick(t, c.C-c.J, "m")
			for k, n := 0, 1+pick(t, 5, "k"); k < n; k++ {
				c.At = append(c.At, pick(t, c.R*c.C, "at"))
			}
			return c
		}, checkOwn)
}
