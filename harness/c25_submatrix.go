package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// RangeCase: a rectangle of a matrix, a rectangle of that part, and a
// destination with room to spare.
type RangeCase struct {
	M     Mat    `json:"m"`
	R     [4]int `json:"range"`
	R2    [4]int `json:"range2"`
	Extra [2]int `json:"extra"` // more rows and columns than needed
	Rag   []int  `json:"rag"`   // destination rows longer still
}

func genRangeCase(t *rapid.T) RangeCase {
	rep := genRep(t, []string{"array", "arrayref", "block", "block", "custom", "customblock", "diag", "default"}, "rep")
	r, c := genDim(t, 160, "r"), genDim(t, 160, "c")
	if rep == "diag" {
		if r > 70 {
			r = 1 + r%70
		}
		c = r
	}
	dist := oneOf(t, []string{dInt, dFloat, dSpecial}, "dist")
	if rep == "diag" && dist == dSpecial {
		dist = dWide // a diagonal matrix takes the smallest subnormals for zero off its diagonal
	}
	cs := RangeCase{M: genMat(t, rep, r, c, dist, "m")}
	cs.R[0], cs.R[1] = genRange(t, r, "a")
	cs.R[2], cs.R[3] = genRange(t, c, "b")
	if rep == "diag" && pct(t, 50, "principal") {
		cs.R[2], cs.R[3] = cs.R[0], cs.R[1]
	}
	cs.R2[0], cs.R2[1] = genRange(t, cs.R[1]-cs.R[0]+1, "c")
	cs.R2[2], cs.R2[3] = genRange(t, cs.R[3]-cs.R[2]+1, "d")
	cs.Extra = [2]int{oneOf(t, []int{0, 0, 1, 3}, "e1"), oneOf(t, []int{0, 0, 1, 5}, "e2")}
	for k := pick(t, 3, "rag"); k > 0; k-- {
		cs.Rag = append(cs.Rag, pick(t, 3, "ragk"))
	}
	return cs
}

func (d Dense) part(r [4]int) Dense {
	p := newDense(r[1]-r[0]+1, r[3]-r[2]+1)
	for i := range p {
		copy(p[i], d[r[0]+i][r[2]:])
	}
	return p
}

func (d Dense) isDiagonal() bool {
	for i := range d {
		for j := range d[i] {
			if i != j && d[i][j] != 0 {
				return false
			}
		}
	}
	return d.rows() == d.cols()
}

// destinationFor makes a destination of at least r x c of recognisable values.
func destinationFor(r, c int, extra [2]int, rag []int) destination {
	d := destination{g: make([][]float64, r+extra[0]), held: make([][]float64, r+extra[0])}
	width := func(i int) int {
		w := c + extra[1]
		if len(rag) > 0 {
			w += rag[i%len(rag)]
		}
		return w
	}
	total := 0
	for i := range d.g {
		total += width(i) + 1
	}
	flat := make([]float64, total)
	p := 0
	for i := range d.g {
		w := width(i)
		d.g[i] = flat[p : p+w]
		// with one more place behind it, which belongs to nobody
		d.held[i] = flat[p : p+w+1]
		for j := range d.held[i] {
			d.held[i][j] = filler(i, j)
		}
		p += w + 1
	}
	return d
}

// destination: where to copy to, and the caller's own hold on its rows.
type destination struct{ g, held [][]float64 }

// filler tells apart every place of a destination.
func filler(i, j int) float64 { return 7777 + float64(1000*i+j)/1024 }

func checkDestination(what string, d destination, want Dense) error {
	for i := range d.held {
		if len(d.g[i]) != len(d.held[i])-1 || len(d.g[i]) > 0 && &d.g[i][0] != &d.held[i][0] {
			return fmt.Errorf("%s: row %d of the destination is not the caller's slice any more", what, i)
		}
		for j := range d.held[i] {
			w := filler(i, j)
			if i < want.rows() && j < want.cols() {
				w = want[i][j]
			}
			if !same(d.held[i][j], w) {
				return fmt.Errorf("%s: destination (%d,%d) is %v, want %v (copied %dx%d)", what, i, j, d.held[i][j], w, want.rows(), want.cols())
			}
		}
	}
	return nil
}

func checkRange(c RangeCase, o *Obs) error {
	m, d := c.M.build()
	want := d.part(c.R)
	o.NonTrivial(want.rows() > 1 || want.cols() > 1)
	o.Label(c.M.Rep)
	crosses := func(a, b int) bool { return a/lin.BLOCK_SIZE != b/lin.BLOCK_SIZE }
	o.LabelIf(crosses(c.R[0], c.R[1]) || crosses(c.R[2], c.R[3]), "crosses a block edge")
	o.LabelIf(crosses(c.R[0], c.R[1]) && crosses(c.R[2], c.R[3]), "crosses a block corner")
	var p lin.RealMatrix
	refused := attempt(func() { p = m.SubMatrix(c.R[0], c.R[1], c.R[2], c.R[3]) })
	if refused != nil {
		if c.M.Rep != "diag" || want.isDiagonal() {
			return fmt.Errorf("SubMatrix%v refused with %v", c.R, refused)
		}
		// a diagonal matrix does not give parts that are not diagonal
		if err := refusedAs("SubMatrix of a diagonal matrix", refused, append([]int{lin.ENBIG}, stDims...)...); err != nil {
			return err
		}
		o.Label("refused, not diagonal")
	} else {
		if err := matchModel(fmt.Sprintf("SubMatrix%v", c.R), p, want); err != nil {
			return err
		}
		if c.M.Rep != "diag" {
			if err := matchModel(fmt.Sprintf("SubMatrix%v of SubMatrix%v", c.R2, c.R), p.SubMatrix(c.R2[0], c.R2[1], c.R2[2], c.R2[3]), want.part(c.R2)); err != nil {
				return err
			}
			// the part is independent of the whole
			p.SetEntry(0, 0, -99)
			m.SetEntry(c.R[1], c.R[3], -98)
			d[c.R[1]][c.R[3]] = -98
			if err := matchModel("the matrix, after its part was written to", m, d); err != nil {
				return err
			}
			if want.rows() > 1 {
				if got := p.At(want.rows()-1, want.cols()-1); !same(got, want[want.rows()-1][want.cols()-1]) {
					return fmt.Errorf("the part shows %v, written to the whole", got)
				}
			}
		}
	}
	want = d.part(c.R)
	g := destinationFor(want.rows(), want.cols(), c.Extra, c.Rag)
	lin.CopySubMatrix(m, c.R[0], c.R[1], c.R[2], c.R[3], g.g)
	if err := checkDestination(fmt.Sprintf("CopySubMatrix%v", c.R), g, want); err != nil {
		return err
	}
	return matchModel("the matrix itself", m, d)
}

// SelectCase: lists of rows and columns.
type SelectCase struct {
	M     Mat    `json:"m"`
	Rows  []int  `json:"rows"`
	Cols  []int  `json:"cols"`
	Rows2 []int  `json:"rows2"` // of the selection
	Cols2 []int  `json:"cols2"`
	Extra [2]int `json:"extra"`
	Rag   []int  `json:"rag"`
}

func genList(t *rapid.T, n, max int, label string) []int {
	k := 1 + pick(t, 8, label+"n")
	if pct(t, 10, label+"long") {
		k = 1 + pick(t, max, label+"N")
	}
	l := make([]int, k)
	switch pick(t, 4, label+"how") {
	case 0: // any order, with repeats
		for i := range l {
			l[i] = genIdx(t, n, label)
		}
	case 1: // one index over and over
		x := genIdx(t, n, label)
		for i := range l {
			l[i] = x
		}
	case 2: // downwards
		x := genIdx(t, n, label)
		for i := range l {
			l[i] = ((x-i)%n + n) % n
		}
	default:
		x := genIdx(t, n, label)
		for i := range l {
			l[i] = (x + i*3) % n
		}
	}
	return l
}

func genSelect(t *rapid.T) SelectCase {
	rep := genRep(t, []string{"array", "block", "custom", "customblock", "diag", "default"}, "rep")
	r, c := genDim(t, 110, "r"), genDim(t, 110, "c")
	if rep == "diag" {
		c = r
	}
	s := SelectCase{M: genMat(t, rep, r, c, oneOf(t, []string{dInt, dFloat, dSpecial}, "dist"), "m")}
	s.Rows, s.Cols = genList(t, r, 80, "rows"), genList(t, c, 80, "cols")
	s.Rows2, s.Cols2 = genList(t, len(s.Rows), 8, "rows2"), genList(t, len(s.Cols), 8, "cols2")
	s.Extra = [2]int{oneOf(t, []int{0, 0, 1, 3}, "e1"), oneOf(t, []int{0, 0, 1, 5}, "e2")}
	for k := pick(t, 3, "rag"); k > 0; k-- {
		s.Rag = append(s.Rag, pick(t, 3, "ragk"))
	}
	return s
}

func (d Dense) selection(rows, cols []int) Dense {
	p := newDense(len(rows), len(cols))
	for i := range p {
		for j := range p[i] {
			p[i][j] = d[rows[i]][cols[j]]
		}
	}
	return p
}

func checkSelect(c SelectCase, o *Obs) error {
	m, d := c.M.build()
	rows, cols := append([]int(nil), c.Rows...), append([]int(nil), c.Cols...)
	want := d.selection(rows, cols)
	o.NonTrivial(len(rows) > 1 || len(cols) > 1)
	o.Label(c.M.Rep)
	o.LabelIf(len(rows)*len(cols) > 4096, "large selection")
	p := lin.SubMatrix(m, rows, cols)
	if err := matchModel(fmt.Sprintf("SubMatrix of rows %v and columns %v", c.Rows, c.Cols), p, want); err != nil {
		return err
	}
	if err := matchModel("selection of a selection", lin.SubMatrix(p, c.Rows2, c.Cols2), want.selection(c.Rows2, c.Cols2)); err != nil {
		return err
	}
	g := destinationFor(want.rows(), want.cols(), c.Extra, c.Rag)
	lin.CopySubMatrixFromIndices(m, rows, cols, g.g)
	if err := checkDestination("CopySubMatrixFromIndices", g, want); err != nil {
		return err
	}
	p.SetEntry(0, 0, -99)
	if err := matchModel("the matrix itself", m, d); err != nil {
		return err
	}
	for i := range rows {
		if rows[i] != c.Rows[i] {
			return fmt.Errorf("the list of rows changed to %v", rows)
		}
	}
	for i := range cols {
		if cols[i] != c.Cols[i] {
			return fmt.Errorf("the list of columns changed to %v", cols)
		}
	}
	return nil
}

type NormCase struct {
	M Mat `json:"m"`
	S int `json:"s"` // scaled by 2^S
}

func genNorm(t *rapid.T) NormCase {
	rep := genRep(t, []string{"array", "block", "block", "custom", "customblock", "diag", "default"}, "rep")
	r, c := genDim(t, 160, "r"), genDim(t, 160, "c")
	if rep == "diag" {
		c = r
	}
	dist, s := oneOf(t, []string{dInt, dTiny, dFloat, dWide}, "dist"), oneOf(t, []int{0, 0, 0, 40, -40, 400, -400, -500, -530, 495}, "s")
	if (s < -400 || s > 400) && dist != dInt {
		dist = dTiny // squares of integers keep every digit
	}
	return NormCase{M: genMat(t, rep, r, c, dist, "m"), S: s}
}

func checkNorm(c NormCase, o *Obs) error {
	d := c.M.dense().scale(math.Ldexp(1, c.S))
	m := buildMat(c.M.Rep, d)
	o.Label(c.M.Rep)
	o.NonTrivial(c.M.R > 1 || c.M.C > 1)
	n := float64(c.M.R * c.M.C)
	want := d.fro()
	if got := lin.MatFrobeniusNorm(m); !(math.Abs(got-want) <= (n+16)*0x1p-52*want) {
		return fmt.Errorf("Frobenius norm of %dx%d (%s) is %v, want %v", c.M.R, c.M.C, c.M.Rep, got, want)
	}
	want = 0
	at := 0
	for j := 0; j < d.cols(); j++ {
		s := 0.0
		for i := range d {
			s += math.Abs(d[i][j])
		}
		if s > want {
			want, at = s, j
		}
	}
	o.LabelIf(at >= lin.BLOCK_SIZE, "largest column beyond the first block")
	if got := lin.MatLInfNorm(m); !(math.Abs(got-want) <= (float64(c.M.R)+4)*0x1p-52*want) {
		return fmt.Errorf("maximum column sum of %dx%d (%s) is %v, want %v", c.M.R, c.M.C, c.M.Rep, got, want)
	}
	return matchModel("the matrix itself", m, d)
}

func genNonfiniteNorm(t *rapid.T) Mat {
	m := Mat{Rep: genRep(t, []string{"array", "block", "block", "custom", "customblock", "diag", "default"}, "rep")}
	m.R, m.C = genDim(t, 110, "r"), genDim(t, 110, "c")
	if m.Rep == "diag" {
		m.C = m.R
	}
	m.D = make([]F, m.R*m.C)
	mag, r := oneOf(t, []int{0, 2, 2}, "mag"), &splitmix{uint64(pick(t, 1<<30, "seed"))}
	for i := range m.D {
		m.D[i] = F(r.sym(mag))
	}
	if m.Rep != "diag" {
		plantSpecials(t, m.D, pick(t, 3, "km"), "pm")
		return m
	}
	diag := make([]F, m.R)
	plantSpecials(t, diag, pick(t, 3, "km"), "pm")
	for i := range m.D {
		if m.D[i] = 0; i%(m.C+1) == 0 {
			m.D[i] = diag[i/(m.C+1)]
		}
	}
	return m
}

func checkNonfiniteNorm(c Mat, o *Obs) error {
	d := c.dense()
	m := buildMat(c.Rep, d)
	o.Label(c.Rep)
	o.NonTrivial(c.R > 1 || c.C > 1)
	var flat []float64
	for _, row := range d {
		flat = append(flat, row...)
	}
	nan, inf := hasSpecial(flat)
	o.Labelf("nan=%v inf=%v", nan, inf)
	if e := extended("Frobenius norm", lin.MatFrobeniusNorm(m), nan, inf); e != nil {
		return e
	}
	return extended("maximum column sum", lin.MatLInfNorm(m), nan, inf)
}

func init() {
	Register("C25", "norms-nonfinite", "more than one entry", 6000, 200000, genNonfiniteNorm, checkNonfiniteNorm)
	Register("C25", "range", "a part of more than one entry", 50000, 1500000, genRangeCase, checkRange)
	Register("C25", "selection", "more than one row or column selected", 60000, 2000000, genSelect, checkSelect)
	Register("C25", "norms", "more than one entry", 30000, 800000, genNorm, checkNorm)
}
