package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// DiagOp is one step of a history on a diagonal matrix.
type DiagOp struct {
	K   string `json:"k"`
	I   int    `json:"i,omitempty"`
	J   int    `json:"j,omitempty"`
	I2  int    `json:"i2,omitempty"`
	J2  int    `json:"j2,omitempty"`
	V   F      `json:"v,omitempty"`
	Bad F      `json:"bad,omitempty"` // what is stored off the diagonal
	BI  int    `json:"bi,omitempty"`  // where, among the off-diagonal places the request covers
	Rep string `json:"rep,omitempty"`
	X   []F    `json:"x,omitempty"`
	Go  bool   `json:"go,omitempty"` // the history continues on the result
}

type DiagCase struct {
	D   []F      `json:"d"`
	Ref bool     `json:"ref"` // made without copying the slice
	Ops []DiagOp `json:"ops"`
}

var diagWrites = []string{"SetEntry", "AddToEntry", "MultiplyEntry", "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix", "SetSubMatrix",
	"WalkInUpdateRowOrder", "WalkInUpdateColumnOrder", "WalkInUpdateOptimizedOrder", "WalkInUpdateRowOrderBounded", "WalkInUpdateColumnOrderBounded", "WalkInUpdateOptimizedOrderBounded"}
var diagUses = []string{"Add", "Subtract", "Multiply", "PreMultiplyMatrix", "Operate", "OperateVector", "PreMultiply", "PreMultiplyVector", "Transpose", "ScalarMultiply", "ScalarAdd", "Copy", "Power", "Data", "Trace", "SubMatrix", "SubMatrix", "RowMatrixAt", "ColumnMatrixAt", "Equals", "Inverse", "RowAt", "ColumnAt", "RowVectorAt", "ColumnVectorAt"}

// values a diagonal matrix cannot hold off the diagonal
var offValues = []float64{1, -1, 1e-300, -1e-300, 2 * math.SmallestNonzeroFloat64, -3 * math.SmallestNonzeroFloat64, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 1e-16, -0x1p-1022, 7}

// values that are zero there (the smallest subnormals count as zero)
var offZeros = []float64{0, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64}

func genDiag(t *rapid.T) DiagCase {
	n := 1 + pick(t, 7, "n")
	if pct(t, 5, "big") {
		n = oneOf(t, []int{52, 53, 65}, "N")
	}
	dist := oneOf(t, []string{dInt, dInt, dTiny, dFloat}, "dist")
	c := DiagCase{Ref: pct(t, 30, "ref")}
	vals := func(n int, label string) []F {
		x := make([]F, n)
		for i := range x {
			x[i] = F(genVal(t, dist, label))
		}
		return x
	}
	c.D = vals(n, "d")
	k := 1 + pick(t, 8, "ops")
	for ; k > 0; k-- {
		var o DiagOp
		if pct(t, 55, "w") {
			o.K = oneOf(t, diagWrites, "k")
			if pct(t, 45, "bad") {
				o.Bad = F(oneOf(t, offValues, "off"))
			} else {
				o.Bad = F(oneOf(t, offZeros, "zero"))
			}
		} else {
			o.K = oneOf(t, diagUses, "k")
			o.Go = pct(t, 60, "go")
		}
		o.BI = pick(t, 64, "bi")
		o.I, o.I2 = genRange(t, n, "i")
		o.J, o.J2 = genRange(t, n, "j")
		switch {
		case pct(t, 40, "principal"):
			o.J, o.J2 = o.I, o.I2
		case pct(t, 50, "square"):
			if h := o.I2 - o.I; o.J+h < n {
				o.J2 = o.J + h
			}
		}
		o.V = F(genVal(t, dist, "v"))
		o.Rep = oneOf(t, []string{"diag", "diag", "customdiag", "array", "block", "custom"}, "rep")
		switch o.K {
		case "Add", "Subtract", "Multiply", "PreMultiplyMatrix", "Operate", "OperateVector", "PreMultiply", "PreMultiplyVector":
			o.X = vals(n, "x")
		case "SetRow", "SetColumn", "SetRowVector", "SetColumnVector", "SetRowMatrix", "SetColumnMatrix", "SetSubMatrix":
			o.X = vals(n, "x")
			if o.Rep == "diag" || o.Rep == "customdiag" {
				o.Rep = "array"
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// diagWalk updates the diagonal, and puts off at the bi-th other place.
type diagWalk struct {
	add, off float64
	bi, seen *int
}

func (w diagWalk) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (w diagWalk) End() float64                                                      { return 4 }
func (w diagWalk) Visit(row, column int, value float64) float64 {
	if row == column {
		return value + w.add
	}
	*w.seen++
	if *w.seen-1 == *w.bi {
		return w.off
	}
	return 0
}

type diagRun struct {
	m *lin.DiagonalMatrix
	d Dense
	o *Obs
}

// part is a rectangle of values to store at (i,j): x on the diagonal, zeros
// elsewhere but for one place that gets bad.
func (s *diagRun) part(op DiagOp, i, j, h, w int) (Dense, bool) {
	p := newDense(h, w)
	off := 0
	for a := range p {
		for b := range p[a] {
			if i+a == j+b {
				p[a][b] = float64(op.X[i+a])
			} else {
				off++
			}
		}
	}
	if off == 0 {
		return p, false
	}
	k := op.BI % off
	for a := range p {
		for b := range p[a] {
			if i+a != j+b {
				if k == 0 {
					p[a][b] = float64(op.Bad)
				}
				k--
			}
		}
	}
	return p, true
}

func isOff(v float64) bool { return !(math.Abs(v) <= math.SmallestNonzeroFloat64) }

// write runs a request whose off-diagonal value is off; update is what it does
// to the model when it is accepted.
func (s *diagRun) write(what string, hasOff bool, off float64, f func(), update func()) error {
	p := attempt(f)
	if hasOff && isOff(off) {
		s.o.Label("refused " + what)
		if err := refusedAs(fmt.Sprintf("%s storing %v off the diagonal", what, off), p, lin.ENBIG); err != nil {
			return err
		}
		return nil
	}
	if p != nil {
		return fmt.Errorf("%s, storing zeros off the diagonal: refused with %v", what, p)
	}
	if update != nil {
		update()
	}
	return nil
}

func (s *diagRun) step(op DiagOp) error {
	n := s.d.rows()
	m, v, bad := s.m, float64(op.V), float64(op.Bad)
	s.o.Label(op.K)
	rect := func(i, j, h, w int, f func(p Dense)) error {
		p, has := s.part(op, i, j, h, w)
		keep := p.clone()
		err := s.write(op.K, has, bad, func() { f(p) }, func() {
			for a := range p {
				for b := range p[a] {
					if i+a == j+b {
						s.d[i+a][i+a] = p[a][b]
					}
				}
			}
		})
		if err != nil {
			return err
		}
		for a := range p {
			if err := matchSlice(op.K+": argument", p[a], keep[a]); err != nil {
				return err
			}
		}
		return nil
	}
	walk := func(i, i2, j, j2 int, f func(w lin.RealMatrixChangingVisitor) float64) error {
		var onDiag []int
		off := (i2-i+1)*(j2-j+1) - 0
		for a := i; a <= i2; a++ {
			if a >= j && a <= j2 {
				onDiag = append(onDiag, a)
			}
		}
		off -= len(onDiag)
		k, seen := -1, 0
		if off > 0 {
			k = op.BI % off
		}
		old := s.d.clone()
		var end float64
		err := s.write(op.K, off > 0, bad, func() { end = f(diagWalk{v, bad, &k, &seen}) }, func() {
			for _, a := range onDiag {
				s.d[a][a] += v
			}
			old = nil
		})
		if err != nil {
			return err
		}
		if old == nil {
			if end != 4 {
				return fmt.Errorf("%s returned %v, the visitor ended with 4", op.K, end)
			}
			return nil
		}
		// the walk stopped where it was refused: what it had visited may have changed
		for _, a := range onDiag {
			if got := m.At(a, a); same(got, old[a][a]+v) {
				s.d[a][a] = got
			}
		}
		return nil
	}
	switch op.K {
	case "SetEntry", "AddToEntry":
		f, x := m.SetEntry, v
		if op.K == "AddToEntry" {
			f = m.AddToEntry
		}
		if op.I != op.J {
			x = bad
		}
		return s.write(op.K, op.I != op.J, bad, func() { f(op.I, op.J, x) }, func() {
			if op.I == op.J && op.K == "SetEntry" {
				s.d[op.I][op.I] = v
			} else if op.I == op.J {
				s.d[op.I][op.I] += v
			}
		})
	case "MultiplyEntry":
		return s.write(op.K, false, 0, func() { m.MultiplyEntry(op.I, op.J, v) }, func() {
			if op.I == op.J {
				s.d[op.I][op.I] *= v
			}
		})
	case "SetRow":
		return rect(op.I, 0, 1, n, func(p Dense) { m.SetRow(op.I, p[0]) })
	case "SetColumn":
		return rect(0, op.J, n, 1, func(p Dense) { m.SetColumn(op.J, col(p, 0)) })
	case "SetRowVector":
		return rect(op.I, 0, 1, n, func(p Dense) { m.SetRowVector(op.I, buildVec(vecRepOf(op.Rep), p[0])) })
	case "SetColumnVector":
		return rect(0, op.J, n, 1, func(p Dense) { m.SetColumnVector(op.J, buildVec(vecRepOf(op.Rep), col(p, 0))) })
	case "SetRowMatrix":
		return rect(op.I, 0, 1, n, func(p Dense) { m.SetRowMatrix(op.I, buildMat(op.Rep, p)) })
	case "SetColumnMatrix":
		return rect(0, op.J, n, 1, func(p Dense) { m.SetColumnMatrix(op.J, buildMat(op.Rep, p)) })
	case "SetSubMatrix":
		return rect(op.I, op.J, op.I2-op.I+1, op.J2-op.J+1, func(p Dense) { m.SetSubMatrix(p, op.I, op.J) })
	case "WalkInUpdateRowOrder":
		return walk(0, n-1, 0, n-1, m.WalkInUpdateRowOrder)
	case "WalkInUpdateColumnOrder":
		return walk(0, n-1, 0, n-1, m.WalkInUpdateColumnOrder)
	case "WalkInUpdateOptimizedOrder":
		return walk(0, n-1, 0, n-1, m.WalkInUpdateOptimizedOrder)
	case "WalkInUpdateRowOrderBounded":
		return walk(op.I, op.I2, op.J, op.J2, func(w lin.RealMatrixChangingVisitor) float64 {
			return m.WalkInUpdateRowOrderBounded(w, op.I, op.I2, op.J, op.J2)
		})
	case "WalkInUpdateColumnOrderBounded":
		return walk(op.I, op.I2, op.J, op.J2, func(w lin.RealMatrixChangingVisitor) float64 {
			return m.WalkInUpdateColumnOrderBounded(w, op.I, op.I2, op.J, op.J2)
		})
	case "WalkInUpdateOptimizedOrderBounded":
		return walk(op.I, op.I2, op.J, op.J2, func(w lin.RealMatrixChangingVisitor) float64 {
			return m.WalkInUpdateOptimizedOrderBounded(w, op.I, op.I2, op.J, op.J2)
		})
	}
	return s.use(op)
}

func vecRepOf(rep string) string {
	if rep == "custom" {
		return "custom"
	}
	return "array"
}

// other is the second operand: X on the diagonal, and off it too when it is
// a dense matrix that may be one.
func other(op DiagOp, n int, full bool) (lin.RealMatrix, Dense) {
	d := newDense(n, n)
	for i := range d {
		d[i][i] = float64(op.X[i])
		if full {
			for j := range d[i] {
				if i != j {
					d[i][j] = float64(op.X[(3*i+5*j+1)%n])
				}
			}
		}
	}
	switch op.Rep {
	case "customdiag":
		return customMatrix{buildMat("diag", d)}, d
	}
	return buildMat(op.Rep, d), d
}

func (s *diagRun) use(op DiagOp) error {
	n := s.d.rows()
	m, d, v := s.m, s.d, float64(op.V)
	// result checks a derived matrix; when it is diagonal and the library made
	// it so, the history may go on with it.
	result := func(got lin.RealMatrix, want Dense) error {
		if err := matchModel(op.K, got, want); err != nil {
			return err
		}
		if dm, ok := got.(*lin.DiagonalMatrix); ok && op.Go {
			if dm == m {
				return fmt.Errorf("%s returned the matrix itself", op.K)
			}
			s.m, s.d = dm, want
		}
		return nil
	}
	// maybe: a result that is not diagonal may be refused
	maybe := func(f func() lin.RealMatrix, want Dense) error {
		diagonal := want.rows() == want.cols()
		for i := range want {
			for j := range want[i] {
				if i != j && want[i][j] != 0 {
					diagonal = false
				}
			}
		}
		var got lin.RealMatrix
		p := attempt(func() { got = f() })
		if p != nil {
			if diagonal {
				return fmt.Errorf("%s, of diagonal result: refused with %v", op.K, p)
			}
			s.o.Label("refused " + op.K)
			return refusedAs(op.K+", of a result that is not diagonal", p, append([]int{lin.ENBIG}, stDims...)...)
		}
		return result(got, want)
	}
	switch op.K {
	case "Add", "Subtract":
		full := op.BI%2 == 1 && (op.Rep == "array" || op.Rep == "block" || op.Rep == "custom")
		x, dx := other(op, n, full)
		f, want := m.Add, d.add(dx)
		if op.K == "Subtract" {
			f, want = m.Subtract, d.sub(dx)
		}
		if err := maybe(func() lin.RealMatrix { return f(x) }, want); err != nil {
			return err
		}
		return matchModel(op.K+": argument", x, dx)
	case "Multiply", "PreMultiplyMatrix":
		x, dx := other(op, n, op.Rep != "diag" && op.Rep != "customdiag")
		f, want := m.Multiply, d.mul(dx)
		if op.K == "PreMultiplyMatrix" {
			f, want = m.PreMultiplyMatrix, dx.mul(d)
		}
		if err := result(f(x), want); err != nil {
			return err
		}
		return matchModel(op.K+": argument", x, dx)
	case "Operate", "PreMultiply":
		x := fls(op.X)
		f := m.Operate
		if op.K == "PreMultiply" {
			f = m.PreMultiply
		}
		got := f(x)
		if err := matchSlice(op.K, got, s.scaled(x)); err != nil {
			return err
		}
		for i := range got {
			got[i] = -77 // the result is the caller's own
		}
		return matchSlice(op.K+": argument", x, fls(op.X))
	case "OperateVector", "PreMultiplyVector":
		x := buildVec(vecRepOf(op.Rep), fls(op.X))
		f := m.OperateVector
		if op.K == "PreMultiplyVector" {
			f = m.PreMultiplyVector
		}
		got := f(x)
		if err := matchVec(op.K, got, s.scaled(fls(op.X))); err != nil {
			return err
		}
		for i := 0; i < n; i++ {
			got.SetEntry(i, -77)
		}
		return matchVec(op.K+": argument", x, fls(op.X))
	case "Transpose":
		return result(m.Transpose(), d.clone())
	case "ScalarMultiply":
		return result(m.ScalarMultiply(v), d.scale(v))
	case "ScalarAdd":
		want := d.clone()
		for i := range want {
			for j := range want[i] {
				want[i][j] += v
			}
		}
		return maybe(func() lin.RealMatrix { return m.ScalarAdd(v) }, want)
	case "Copy":
		c := m.Copy()
		if !op.Go {
			c.SetEntry(op.I, op.I, -77)
			return nil
		}
		return result(c, d.clone())
	case "Power":
		p := op.BI % 6
		want := identity(n)
		for k := 0; k < p; k++ {
			want = want.mul(d)
		}
		got := lin.Power(m, p)
		for i := range want {
			for j := range want[i] {
				if g := got.At(i, j); i != j && g != 0 || !(math.Abs(g-want[i][j]) <= 1e-13*math.Abs(want[i][j])) {
					return fmt.Errorf("power %d: entry (%d,%d) is %v, want %v", p, i, j, g, want[i][j])
				}
			}
		}
		return nil
	case "Data":
		got := m.Data()
		if len(got) != n {
			return fmt.Errorf("Data has %d rows, want %d", len(got), n)
		}
		for i := range got {
			if err := matchSlice("Data", got[i], d[i]); err != nil {
				return err
			}
			for j := range got[i] {
				got[i][j] = -77
			}
		}
		return nil
	case "Trace":
		want, finite := 0.0, 0.0
		for i := range d {
			if want += d[i][i]; !math.IsInf(d[i][i], 0) {
				finite += math.Abs(d[i][i])
			}
		}
		if math.IsInf(finite, 0) {
			return nil // overflow: depends on the order of summation
		}
		if got := m.Trace(); !same(got, want) && !(math.Abs(got-want) <= 1e-12*d.abs().trace()) {
			return fmt.Errorf("trace is %v, want %v", got, want)
		}
		return nil
	case "RowAt", "ColumnAt":
		got := m.RowAt(op.I)
		if op.K == "ColumnAt" {
			got = m.ColumnAt(op.I)
		}
		err := matchSlice(op.K, got, d[op.I])
		for i := range got {
			got[i] = -77
		}
		return err
	case "RowVectorAt", "ColumnVectorAt":
		got := m.RowVectorAt(op.I)
		if op.K == "ColumnVectorAt" {
			got = m.ColumnVectorAt(op.I)
		}
		err := matchVec(op.K, got, d[op.I])
		for i := 0; i < n; i++ {
			got.SetEntry(i, -77)
		}
		return err
	case "SubMatrix", "RowMatrixAt", "ColumnMatrixAt":
		i, i2, j, j2 := op.I, op.I2, op.J, op.J2
		f := func() lin.RealMatrix { return m.SubMatrix(i, i2, j, j2) }
		if op.K == "RowMatrixAt" {
			i2, j, j2 = i, 0, n-1
			f = func() lin.RealMatrix { return m.RowMatrixAt(i) }
		} else if op.K == "ColumnMatrixAt" {
			i, i2, j2 = 0, n-1, j
			f = func() lin.RealMatrix { return m.ColumnMatrixAt(j) }
		}
		want := newDense(i2-i+1, j2-j+1)
		for a := range want {
			copy(want[a], d[i+a][j:])
		}
		return maybe(f, want)
	case "Equals":
		for _, rep := range allReps {
			x := buildMat(rep, d)
			if !m.Equals(x) || !x.Equals(m) {
				return fmt.Errorf("differs from the %s matrix of the same entries", rep)
			}
		}
		return nil
	case "Inverse":
		zero := false
		want := newDense(n, n)
		for i := range want {
			zero = zero || d[i][i] == 0
			want[i][i] = 1 / d[i][i]
		}
		if zero {
			return refusedAs("Inverse of a diagonal with a zero", attempt(func() { m.Inverse() }), lin.ESING)
		}
		return result(m.Inverse(), want)
	}
	hbug("diagonal op %q", op.K)
	return nil
}

func (s *diagRun) scaled(x []float64) []float64 {
	w := make([]float64, len(x))
	for i := range w {
		w[i] = s.d[i][i] * x[i]
	}
	return w
}

func (d Dense) trace() float64 {
	t := 0.0
	for i := range d {
		t += d[i][i]
	}
	return t
}

func checkDiag(c DiagCase, o *Obs) error {
	src := fls(c.D)
	s := &diagRun{m: must(lin.NewDiagonalMatrix(src, !c.Ref)), d: newDense(len(c.D), len(c.D)), o: o}
	for i, x := range fls(c.D) {
		s.d[i][i] = x
	}
	o.NonTrivial(len(c.Ops) > 0 && len(c.D) > 1)
	seen := map[*lin.DiagonalMatrix]Dense{}
	for k, op := range c.Ops {
		before := s.m
		if err := s.step(op); err != nil {
			return fmt.Errorf("step %d: %v", k+1, err)
		}
		if before != s.m {
			// the history left this matrix: it must not change any more
			if _, ok := seen[before]; !ok {
				seen[before] = toDense(before)
			}
		}
		if err := matchModel(fmt.Sprintf("after step %d, %s", k+1, op.K), s.m, s.d); err != nil {
			return err
		}
		if err := matchSlice("DataRef", s.m.DataRef(), s.scaled(ones(s.d.rows()))); err != nil {
			return fmt.Errorf("after step %d, %s: %v", k+1, op.K, err)
		}
		for old, d := range seen {
			if err := matchModel(fmt.Sprintf("a matrix the history had left, after step %d, %s", k+1, op.K), old, d); err != nil {
				return err
			}
		}
		if s.d.rows() != len(c.D) {
			break // a part: the other steps are for the full dimension
		}
	}
	return nil
}

func ones(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = 1
	}
	return o
}

// DiagInvCase: a diagonal and a threshold.
type DiagInvCase struct {
	D []F `json:"d"`
	T F   `json:"t"`
}

func genDiagInv(t *rapid.T) DiagInvCase {
	n := genDim(t, 60, "n")
	var c DiagInvCase
	c.T = F(oneOf(t, []float64{0, 0, 1e-12, 1, 0.1, 1e-300, 3, 1e300, 0x1p-1074, 0x1p-1022}, "t"))
	k := oneOf(t, []int{0, 0, 1, 2, 5}, "near")
	for i := 0; i < n; i++ {
		x := float64(c.T) * float64(2+pick(t, 20, "x"))
		if x == 0 || math.IsInf(x, 0) || pct(t, 20, "any") {
			x = genVal(t, oneOf(t, []string{dFloat, dWide}, "dist"), "v")
			if x == 0 {
				x = 1e-9
			}
		}
		if pct(t, 40, "neg") {
			x = -x
		}
		c.D = append(c.D, F(x))
	}
	for ; k > 0; k-- {
		th := float64(c.T)
		x := oneOf(t, []float64{th, -th, math.Nextafter(th, 0), math.Nextafter(th, 1e308), -math.Nextafter(th, 1e308), math.Nextafter(math.Nextafter(th, 1e308), 1e308), 0, math.Copysign(0, -1), th / 2, 2 * th, math.Inf(1), 1e-310}, "bnd")
		c.D[pick(t, n, "at")] = F(x)
	}
	return c
}

func checkDiagInv(c DiagInvCase, o *Obs) error {
	n, th := len(c.D), float64(c.T)
	m := must(lin.NewDiagonalMatrixFromSlice(fls(c.D)))
	singular, zero, doubt, doubtZero := false, false, false, false
	d := newDense(n, n)
	inv := newDense(n, n)
	for i, f := range c.D {
		x := float64(f)
		d[i][i] = x
		inv[i][i] = 1 / x
		a := math.Abs(x)
		singular = singular || a <= th
		zero = zero || a == 0
		// the smallest subnormals count as zero
		doubt = doubt || a > th && a <= math.SmallestNonzeroFloat64
		doubtZero = doubtZero || a == math.SmallestNonzeroFloat64
	}
	o.NonTrivial(n > 1)
	o.LabelIf(singular, "singular")
	o.LabelIf(singular && !zero, "singular by the threshold")
	o.LabelIf(!singular, "regular")
	if singular || !doubt {
		if got := m.IsSingular(th); got != singular {
			return fmt.Errorf("IsSingular(%v) is %v", th, got)
		}
		p := attempt(func() {
			if err := matchModel("inverse", m.InverseWithThreshold(th), inv); err != nil {
				panic(err)
			}
		})
		if singular {
			if err := refusedAs(fmt.Sprintf("InverseWithThreshold(%v) of a singular matrix", th), p, lin.ESING); err != nil {
				return err
			}
		} else if p != nil {
			return fmt.Errorf("InverseWithThreshold(%v): %v", th, p)
		}
	}
	if zero || !doubtZero {
		p := attempt(func() {
			if err := matchModel("inverse", m.Inverse(), inv); err != nil {
				panic(err)
			}
		})
		if zero {
			if err := refusedAs("Inverse of a singular matrix", p, lin.ESING); err != nil {
				return err
			}
		} else if p != nil {
			return fmt.Errorf("Inverse: %v", p)
		}
	}
	return matchModel("the matrix itself", m, d)
}

// DiagNonfiniteCase: a diagonal matrix and another one, with infinite and NaN
// entries among them.
type DiagNonfiniteCase struct {
	D    []F  `json:"d"`
	M    Mat  `json:"m"`
	Left bool `json:"left"`
	Vec  bool `json:"vec"`
}

func genDiagNonfinite(t *rapid.T) DiagNonfiniteCase {
	n := 1 + pick(t, 5, "n")
	c := DiagNonfiniteCase{Left: pct(t, 50, "left"), Vec: pct(t, 20, "vec")}
	for i := 0; i < n; i++ {
		c.D = append(c.D, F(genVal(t, oneOf(t, []string{dSpecial, dInt}, "dist"), "d")))
	}
	k := 1 + pick(t, 5, "k")
	r, cc := n, k
	if !c.Left {
		r, cc = k, n
	}
	rep := oneOf(t, []string{"array", "block", "custom", "default", "diag"}, "rep")
	if rep == "diag" {
		r, cc = n, n
	}
	c.M = genMat(t, rep, r, cc, oneOf(t, []string{dSpecial, dInt, dTiny}, "mdist"), "m")
	return c
}

// The product of a matrix with a diagonal one has, for finite entries, one
// product of two entries at each place. With others there may be more NaN than
// that, but what is infinite or NaN by that one product cannot be finite.
func checkDiagNonfinite(c DiagNonfiniteCase, o *Obs) error {
	m := must(lin.NewDiagonalMatrixFromSlice(fls(c.D)))
	x, d := c.M.build()
	want := d.clone()
	bad := false
	for i := range d {
		for j := range d[i] {
			if c.Left {
				want[i][j] = float64(c.D[i]) * d[i][j]
			} else {
				want[i][j] = d[i][j] * float64(c.D[j])
			}
			bad = bad || !finite(want[i][j])
		}
	}
	o.NonTrivial(bad)
	o.Label(c.M.Rep)
	var got Dense
	switch {
	case c.Vec && c.Left:
		got = Dense{}
		for i, v := range m.Operate(col(d, 0)) {
			got = append(got, []float64{v})
			want[i] = want[i][:1]
		}
	case c.Vec:
		got, want = Dense{m.PreMultiply(d[0])}, want[:1]
	case c.Left:
		got = toDense(m.Multiply(x))
	default:
		got = toDense(m.PreMultiplyMatrix(x))
	}
	for i := range want {
		for j := range want[i] {
			if g, w := got[i][j], want[i][j]; !(same(g, w) || g == w || math.IsNaN(g) && !finite(w)) {
				if c.M.Rep == "diag" && i != j && math.IsNaN(w) {
					continue // diagonal times diagonal is diagonal
				}
				if math.IsNaN(g) && !allFinite(c.D, d) {
					continue
				}
				return fmt.Errorf("product entry (%d,%d) is %v, of entries whose product is %v", i, j, g, w)
			}
		}
	}
	return nil
}

func allFinite(x []F, d Dense) bool {
	for _, v := range x {
		if !finite(float64(v)) {
			return false
		}
	}
	for i := range d {
		for _, v := range d[i] {
			if !finite(v) {
				return false
			}
		}
	}
	return true
}

func finite(x float64) bool { return x-x == 0 }

func init() {
	Register("C26", "nonfinite-products", "a product of entries that is infinite or NaN", 60000, 600000, genDiagNonfinite, checkDiagNonfinite)
	Register("C26", "history", "at least one step on a matrix of order 2 or more", 100000, 2000000, genDiag, checkDiag)
	Register("C26", "inverse", "order 2 or more", 40000, 400000, genDiagInv, checkDiagInv)
}
