package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type visitRec struct {
	i, j int
	v    float64
}

// recorder logs a traversal. When changing, it returns f(i,j,v).
// maxVisits is more than any object walked here has entries.
const maxVisits = 1 << 20

type recorder struct {
	starts, ends int
	bounds       [6]int
	log          []visitRec
	f            func(i, j int, v float64) float64
	ret          float64
	early        bool // visit before start or after end
}

func (r *recorder) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {
	r.starts++
	r.bounds = [6]int{rows, columns, startRow, endRow, startColumn, endColumn}
}
func (r *recorder) visit(i, j int, v float64) float64 {
	if r.starts != 1 || r.ends != 0 {
		r.early = true
	}
	r.log = append(r.log, visitRec{i, j, v})
	if len(r.log) > maxVisits {
		panic(fmt.Sprintf("a walk made over %d visits", maxVisits))
	}
	if r.f != nil {
		return r.f(i, j, v)
	}
	return 0
}
func (r *recorder) End() float64 { r.ends++; return r.ret }

type preserving struct{ *recorder }

func (p preserving) Visit(i, j int, v float64) { p.visit(i, j, v) }

type changing struct{ *recorder }

func (c changing) Visit(i, j int, v float64) float64 { return c.visit(i, j, v) }

var walkKinds = []string{"Row", "Column", "Optimized"}

type WalkCase struct {
	M              Mat
	Order          string
	Update, Bounds bool
	I, I2, J, J2   int
	Ret            F
	Add, Mul       F
	Special        int // one visit in so many returns a NaN, an infinity, a signed zero...; 0: none
}

// visitReturn is what a visit of (i,j) returns for v.
func visitReturn(special, i, j int, v float64) float64 {
	if special > 0 {
		if h := (uint64(i)*1000003 + uint64(j)*7919 + uint64(special)*31) * 0x9e3779b97f4a7c15 >> 20; h%uint64(special) == 0 {
			return specials[(h/uint64(special))%uint64(len(specials))]
		}
	}
	return v
}

func doWalk(m lin.RealMatrix, c WalkCase, r *recorder) float64 {
	switch {
	case c.Update && c.Bounds:
		v := changing{r}
		switch c.Order {
		case "Row":
			return m.WalkInUpdateRowOrderBounded(v, c.I, c.I2, c.J, c.J2)
		case "Column":
			return m.WalkInUpdateColumnOrderBounded(v, c.I, c.I2, c.J, c.J2)
		default:
			return m.WalkInUpdateOptimizedOrderBounded(v, c.I, c.I2, c.J, c.J2)
		}
	case c.Update:
		v := changing{r}
		switch c.Order {
		case "Row":
			return m.WalkInUpdateRowOrder(v)
		case "Column":
			return m.WalkInUpdateColumnOrder(v)
		default:
			return m.WalkInUpdateOptimizedOrder(v)
		}
	case c.Bounds:
		v := preserving{r}
		switch c.Order {
		case "Row":
			return m.WalkInRowOrderBounded(v, c.I, c.I2, c.J, c.J2)
		case "Column":
			return m.WalkInColumnOrderBounded(v, c.I, c.I2, c.J, c.J2)
		default:
			return m.WalkInOptimizedOrderBounded(v, c.I, c.I2, c.J, c.J2)
		}
	}
	v := preserving{r}
	switch c.Order {
	case "Row":
		return m.WalkInRowOrder(v)
	case "Column":
		return m.WalkInColumnOrder(v)
	}
	return m.WalkInOptimizedOrder(v)
}

func genWalk(t *rapid.T) WalkCase {
	var c WalkCase
	r, k := genDim(t, 160, "r"), genDim(t, 160, "c")
	rep := genRep(t, allReps, "rep")
	if rep == "diag" {
		k = r
	}
	c.M = genMat(t, rep, r, k, oneOf(t, []string{dInt, dSpecial}, "dist"), "m")
	c.Order = oneOf(t, walkKinds, "order")
	c.Update = pct(t, 50, "upd")
	c.Bounds = pct(t, 65, "bnd")
	c.I2, c.J2 = r-1, k-1
	if c.Bounds {
		c.I, c.I2 = genRange(t, r, "i")
		c.J, c.J2 = genRange(t, k, "j")
	}
	c.Ret = F(genVal(t, dSpecial, "ret"))
	c.Add, c.Mul = F(genVal(t, dInt, "add")), F(genVal(t, dInt, "mul"))
	c.Special = oneOf(t, []int{0, 0, 1, 2, 5}, "special")
	return c
}

func checkWalk(c WalkCase, o *Obs) error {
	m, d := c.M.build()
	rec := c.recorder()
	ret := doWalk(m, c, rec)
	o.NonTrivial(c.I2 > c.I || c.J2 > c.J)
	o.Labelf("%s/%s/update=%v/bounded=%v", c.M.Rep, c.Order, c.Update, c.Bounds)
	o.LabelIf(c.I/52 != c.I2/52 || c.J/52 != c.J2/52, "straddles-blocks")
	return c.verify(m, d, rec, rec.f, ret)
}

func (c WalkCase) recorder() *recorder {
	rec := &recorder{ret: float64(c.Ret)}
	if c.Update {
		rec.f = func(i, j int, v float64) float64 {
			if c.M.Rep == "diag" && i != j {
				return 0
			}
			return visitReturn(c.Special, i, j, v*float64(c.Mul)+float64(c.Add)+float64(i*1000+j))
		}
	}
	return rec
}

// verify judges a walk that is over by what was recorded; d is what the matrix
// held before it, and is brought up to date.
func (c WalkCase) verify(m lin.RealMatrix, d Dense, rec *recorder, f func(i, j int, v float64) float64, ret float64) error {
	diag := c.M.Rep == "diag"
	name := fmt.Sprintf("%s walk (update=%v bounded=%v) of %s %dx%d region [%d..%d]x[%d..%d]", c.Order, c.Update, c.Bounds, c.M.Rep, c.M.R, c.M.C, c.I, c.I2, c.J, c.J2)
	if rec.starts != 1 || rec.ends != 1 || rec.early {
		return fmt.Errorf("%s: start called %d times, end %d times, visits outside start/end: %v", name, rec.starts, rec.ends, rec.early)
	}
	if !same(ret, float64(c.Ret)) {
		return fmt.Errorf("%s: returned %v, the visitor's end returned %v", name, ret, float64(c.Ret))
	}
	if want := [6]int{c.M.R, c.M.C, c.I, c.I2, c.J, c.J2}; rec.bounds != want {
		return fmt.Errorf("%s: start was given %v, want %v", name, rec.bounds, want)
	}
	nr, nc := c.I2-c.I+1, c.J2-c.J+1
	// A diagonal matrix may leave out the entries it cannot hold.
	seen := make([]bool, nr*nc)
	if !diag && len(rec.log) != nr*nc {
		return fmt.Errorf("%s: %d visits, want %d", name, len(rec.log), nr*nc)
	}
	last := -1
	for k, v := range rec.log {
		if v.i < c.I || v.i > c.I2 || v.j < c.J || v.j > c.J2 {
			return fmt.Errorf("%s: visit %d at (%d,%d) is outside the region", name, k, v.i, v.j)
		}
		a, b := v.i-c.I, v.j-c.J
		if seen[a*nc+b] {
			return fmt.Errorf("%s: entry (%d,%d) visited twice", name, v.i, v.j)
		}
		seen[a*nc+b] = true
		if !same(v.v, d[v.i][v.j]) {
			return fmt.Errorf("%s: visit of (%d,%d) was given %v, the entry is %v", name, v.i, v.j, v.v, d[v.i][v.j])
		}
		pos := -1
		switch c.Order {
		case "Row":
			pos = a*nc + b
		case "Column":
			pos = b*nr + a
		}
		if pos >= 0 {
			if pos <= last {
				return fmt.Errorf("%s: entry (%d,%d) visited out of order", name, v.i, v.j)
			}
			last = pos
		}
	}
	for a := 0; a < nr; a++ {
		for b := 0; b < nc; b++ {
			if !seen[a*nc+b] && (!diag || a+c.I == b+c.J) {
				return fmt.Errorf("%s: entry (%d,%d) was not visited", name, a+c.I, b+c.J)
			}
		}
	}
	if c.Update {
		for i := c.I; i <= c.I2; i++ {
			for j := c.J; j <= c.J2; j++ {
				d[i][j] = f(i, j, d[i][j])
			}
		}
	}
	if err := matchModel("after "+name, m, d); err != nil || diag {
		return err
	}
	for i := range d {
		for j := range d[i] {
			if got := m.At(i, j); got == 0 && math.Signbit(got) != math.Signbit(d[i][j]) {
				return fmt.Errorf("after %s: entry (%d,%d) is %v, want %v: the sign of the zero is lost", name, i, j, got, d[i][j])
			}
		}
	}
	return nil
}

// NestCase: a walk whose visitor, at some of its visits, makes other walks of
// its own, after one that its visitor gave up with a panic.
type NestCase struct {
	Outer, Inner, Given WalkCase
	Same                bool // all on one matrix; otherwise on one each
	Every               int  // at every so many visits an inner walk is made
	Abort               int  // the walk given up ends at this visit; 0: there is none
}

func checkNested(c NestCase, o *Obs) error {
	m, d := c.Outer.M.build()
	mi, di := c.Inner.M.build()
	mg, dg := c.Given.M.build()
	if c.Same {
		mi, di, mg, dg = m, d, m, d
	}
	if c.Abort > 0 {
		rec, visits := c.Given.recorder(), 0
		store := rec.f
		stored := map[[2]int]float64{}
		rec.f = func(i, j int, v float64) float64 {
			if visits++; visits >= c.Abort {
				panic(gaveUp)
			}
			if store == nil {
				return 0
			}
			stored[[2]int{i, j}] = store(i, j, v)
			return stored[[2]int{i, j}]
		}
		p := attempt(func() { doWalk(mg, c.Given, rec) })
		if p != nil && p != gaveUp {
			panic(p)
		}
		o.LabelIf(p == gaveUp, "given up")
		for i := range dg {
			for j := range dg[i] {
				got := mg.At(i, j)
				x, ok := stored[[2]int{i, j}]
				if !same(got, dg[i][j]) && !(ok && same(got, x)) {
					return fmt.Errorf("after a walk given up at visit %d: entry (%d,%d) is %v, was %v", c.Abort, i, j, got, dg[i][j])
				}
				dg[i][j] = got
			}
		}
	}
	rec := c.Outer.recorder()
	f := rec.f
	visits, inner := 0, 0
	var failed error
	rec.f = func(i, j int, v float64) float64 {
		visits++
		if visits%c.Every == 0 && failed == nil && inner < 6 {
			inner++
			in := c.Inner.recorder()
			ret := doWalk(mi, c.Inner, in)
			if err := c.Inner.verify(mi, di, in, in.f, ret); err != nil {
				failed = fmt.Errorf("inside visit %d of another walk: %w", visits, err)
			}
			lin.MatLInfNorm(mi)
			lin.MatFrobeniusNorm(mi)
			mi.Transpose()
			mi.RowAt(0)
			mi.ColumnAt(0)
			mi.Operate(make([]float64, mi.ColumnDimension()))
		}
		if f == nil {
			return 0
		}
		return f(i, j, v)
	}
	ret := doWalk(m, c.Outer, rec)
	if failed != nil {
		return failed
	}
	o.NonTrivial(inner > 0 && visits > 1)
	o.Labelf("%s in %s", c.Inner.Order, c.Outer.Order)
	o.LabelIf(c.Same, "one matrix")
	if err := c.Outer.verify(m, d, rec, f, ret); err != nil {
		return fmt.Errorf("with %d walks inside: %w", inner, err)
	}
	return matchModel("the matrix walked inside", mi, di)
}

const gaveUp = "the visitor gave up"

func genNested(t *rapid.T) NestCase {
	c := NestCase{Outer: genWalk(t), Same: pct(t, 50, "same"), Every: 1 + pick(t, 5, "every")}
	small := func() WalkCase {
		for {
			if w := genWalk(t); w.M.R*w.M.C <= 4000 {
				return w
			}
		}
	}
	if c.Outer.M.R*c.Outer.M.C > 4000 {
		c.Outer = small()
	}
	again := func() WalkCase {
		w := c.Outer
		w.Order, w.Bounds = oneOf(t, walkKinds, "order2"), pct(t, 65, "bnd2")
		w.I, w.I2, w.J, w.J2 = 0, w.M.R-1, 0, w.M.C-1
		if w.Bounds {
			w.I, w.I2 = genRange(t, w.M.R, "i2")
			w.J, w.J2 = genRange(t, w.M.C, "j2")
		}
		return w
	}
	if c.Same {
		c.Given = again()
		c.Outer.Update = false
		c.Inner = again()
	} else {
		c.Inner, c.Given = small(), small()
	}
	if pct(t, 60, "abort") {
		c.Abort = 1 + pick(t, 8, "at")
	}
	return c
}

// ---- vectors ---------------------------------------------------------------

type vrecorder struct {
	starts, ends int
	bounds       [3]int
	log          []visitRec
	f            func(i int, v float64) float64
	ret          float64
	early        bool
}

func (r *vrecorder) Start(dimension, start, end int) {
	r.starts++
	r.bounds = [3]int{dimension, start, end}
}
func (r *vrecorder) visit(i int, v float64) float64 {
	if r.starts != 1 || r.ends != 0 {
		r.early = true
	}
	r.log = append(r.log, visitRec{i, 0, v})
	if len(r.log) > maxVisits {
		panic(fmt.Sprintf("a walk made over %d visits", maxVisits))
	}
	if r.f != nil {
		return r.f(i, v)
	}
	return 0
}
func (r *vrecorder) End() float64 { r.ends++; return r.ret }

type vpreserving struct{ *vrecorder }

func (p vpreserving) Visit(i int, v float64) { p.visit(i, v) }

type vchanging struct{ *vrecorder }

func (c vchanging) Visit(i int, v float64) float64 { return c.visit(i, v) }

type VWalkCase struct {
	V                         Vec
	Optimized, Update, Bounds bool
	I, I2                     int
	Ret, Add                  F
	Special                   int
}

func checkVWalk(c VWalkCase, o *Obs) error {
	v, d := c.V.build()
	rec := c.recorder()
	ret := c.do(v, rec)
	o.NonTrivial(c.I2 > c.I)
	o.Labelf("vector/optimized=%v/update=%v/bounded=%v", c.Optimized, c.Update, c.Bounds)
	return c.verify(v, d, rec, rec.f, ret)
}

func (c VWalkCase) recorder() *vrecorder {
	rec := &vrecorder{ret: float64(c.Ret)}
	if c.Update {
		rec.f = func(i int, x float64) float64 { return visitReturn(c.Special, i, 0, x+float64(c.Add)+float64(1000*i)) }
	}
	return rec
}

func (c VWalkCase) do(v lin.RealVector, rec *vrecorder) float64 {
	switch {
	case c.Update && c.Bounds && c.Optimized:
		return v.WalkInUpdateOptimizedOrderBounded(vchanging{rec}, c.I, c.I2)
	case c.Update && c.Bounds:
		return v.WalkInUpdateDefaultOrderBounded(vchanging{rec}, c.I, c.I2)
	case c.Update && c.Optimized:
		return v.WalkInUpdateOptimizedOrder(vchanging{rec})
	case c.Update:
		return v.WalkInUpdateDefaultOrder(vchanging{rec})
	case c.Bounds && c.Optimized:
		return v.WalkInOptimizedOrderBounded(vpreserving{rec}, c.I, c.I2)
	case c.Bounds:
		return v.WalkInDefaultOrderBounded(vpreserving{rec}, c.I, c.I2)
	case c.Optimized:
		return v.WalkInOptimizedOrder(vpreserving{rec})
	default:
		return v.WalkInDefaultOrder(vpreserving{rec})
	}
}

// verify judges a walk that is over; d is what the vector held before it, and is
// brought up to date.
func (c VWalkCase) verify(v lin.RealVector, d []float64, rec *vrecorder, f func(i int, x float64) float64, ret float64) error {
	name := fmt.Sprintf("vector walk (optimized=%v update=%v bounded=%v) of %d, range [%d..%d]", c.Optimized, c.Update, c.Bounds, len(d), c.I, c.I2)
	if rec.starts != 1 || rec.ends != 1 || rec.early {
		return fmt.Errorf("%s: start called %d times, end %d times, visits outside: %v", name, rec.starts, rec.ends, rec.early)
	}
	if !same(ret, float64(c.Ret)) {
		return fmt.Errorf("%s: returned %v, want %v", name, ret, float64(c.Ret))
	}
	if want := [3]int{len(d), c.I, c.I2}; rec.bounds != want {
		return fmt.Errorf("%s: start was given %v, want %v", name, rec.bounds, want)
	}
	if len(rec.log) != c.I2-c.I+1 {
		return fmt.Errorf("%s: %d visits, want %d", name, len(rec.log), c.I2-c.I+1)
	}
	seen := map[int]bool{}
	for k, r := range rec.log {
		if r.i < c.I || r.i > c.I2 || seen[r.i] || (!c.Optimized && r.i != c.I+k) {
			return fmt.Errorf("%s: visit %d is of index %d", name, k, r.i)
		}
		seen[r.i] = true
		if !same(r.v, d[r.i]) {
			return fmt.Errorf("%s: visit of index %d was given %v, the element is %v", name, r.i, r.v, d[r.i])
		}
	}
	if c.Update {
		for i := c.I; i <= c.I2; i++ {
			d[i] = f(i, d[i])
		}
	}
	return matchVec("after "+name, v, d)
}

// VNestCase: a walk over a vector, or Map, whose visitor makes walks of its own.
type VNestCase struct {
	Outer, Inner VWalkCase
	Same, Map    bool
	Every        int
}

func genVWalk(t *rapid.T) VWalkCase {
	n := genDim(t, 60, "n")
	c := VWalkCase{V: genVec(t, genRep(t, vecReps, "rep"), n, oneOf(t, []string{dInt, dSpecial}, "dist"), "v")}
	c.Optimized, c.Update, c.Bounds = pct(t, 50, "o"), pct(t, 50, "u"), pct(t, 60, "b")
	c.I2 = n - 1
	if c.Bounds {
		c.I, c.I2 = genRange(t, n, "i")
	}
	c.Ret, c.Add = F(genVal(t, dSpecial, "ret")), F(genVal(t, dInt, "add"))
	c.Special = oneOf(t, []int{0, 0, 1, 2, 5}, "special")
	return c
}

func checkVNested(c VNestCase, o *Obs) error {
	v, d := c.Outer.V.build()
	vi, di := c.Inner.V.build()
	if c.Same {
		vi, di = v, d
	}
	visits, inner := 0, 0
	var failed error
	busy := func() {
		visits++
		if visits%c.Every != 0 || failed != nil || inner >= 6 {
			return
		}
		inner++
		in := c.Inner.recorder()
		ret := c.Inner.do(vi, in)
		if err := c.Inner.verify(vi, di, in, in.f, ret); err != nil {
			failed = fmt.Errorf("inside visit %d: %w", visits, err)
		}
		vi.Add(vi)
		lin.VecL1Norm(vi)
		lin.VecDotProduct(vi, vi)
		vi.Copy().Map(mapF)
	}
	o.LabelIf(c.Same, "one vector")
	if c.Map {
		o.Label("Map")
		given := 0
		v.Map(func(x float64) float64 {
			given++
			busy()
			return 2*x + 1
		})
		if failed != nil {
			return failed
		}
		if given != len(d) {
			return fmt.Errorf("Map called its function %d times for %d elements", given, len(d))
		}
		for i := range d {
			d[i] = 2*d[i] + 1
		}
		o.NonTrivial(inner > 0 && len(d) > 1)
		return errs(matchVec("after Map", v, d), matchVec("the vector walked inside", vi, di))
	}
	rec := c.Outer.recorder()
	f := rec.f
	rec.f = func(i int, x float64) float64 {
		busy()
		if f == nil {
			return 0
		}
		return f(i, x)
	}
	ret := c.Outer.do(v, rec)
	if failed != nil {
		return failed
	}
	o.NonTrivial(inner > 0 && visits > 1)
	o.Labelf("inner optimized=%v in outer optimized=%v", c.Inner.Optimized, c.Outer.Optimized)
	if err := c.Outer.verify(v, d, rec, f, ret); err != nil {
		return fmt.Errorf("with %d walks inside: %w", inner, err)
	}
	return matchVec("the vector walked inside", vi, di)
}

func genVNested(t *rapid.T) VNestCase {
	c := VNestCase{Outer: genVWalk(t), Inner: genVWalk(t), Same: pct(t, 50, "same"), Map: pct(t, 25, "map"), Every: 1 + pick(t, 5, "every")}
	if c.Same {
		w := c.Outer
		w.Update, w.Optimized = false, pct(t, 50, "o2")
		c.Outer.Update = false
		c.Inner = w
		if c.Map {
			c.Same = false
		}
	}
	return c
}

func init() {
	Register("C05", "nested", "walks inside the visits of a walk, and after a walk its visitor gave up; non-trivial: at least one walk inside",
		2500, 50000, genNested, checkNested)
	Register("C05", "vector-nested", "walks over vectors inside the visits of a walk or the calls of Map; non-trivial: at least one walk inside",
		4000, 80000, genVNested, checkVNested)
	Register("C05", "matrix-walks", "all twelve walk kinds on random shapes, sub-rectangles (block edges included) and representations with a recording visitor: bounds, each entry once, position, value, order, return value, stored results (NaN, infinities and extremes among them), rest unchanged; non-trivial: region of more than one entry",
		20000, 400000, genWalk, checkWalk)
	Register("C05", "vector-walks", "all eight vector walks on random lengths and ranges with a recording visitor; non-trivial: range of more than one element",
		10000, 200000,
		genVWalk, checkVWalk)

	// A visitor that reads and accumulates: the fold over the walk equals the
	// fold over the model, whatever the order (exact integers).
	type foldCase struct{ M Mat }
	Register("C05", "folds", "row-, column- and optimized-order walks used to fold integer matrices (sum, position-weighted sum) agree with the model; non-trivial: more than one entry",
		8000, 150000,
		func(t *rapid.T) foldCase {
			r, k := genDim(t, 160, "r"), genDim(t, 160, "c")
			return foldCase{genMat(t, genRep(t, denseReps, "rep"), r, k, dInt, "m")}
		},
		func(c foldCase, o *Obs) error {
			m, d := c.M.build()
			want := 0.0
			for i := range d {
				for j := range d[i] {
					want += d[i][j] * float64(1+i*200+j)
				}
			}
			o.NonTrivial(c.M.R*c.M.C > 1)
			for _, ord := range walkKinds {
				got := 0.0
				r := &recorder{}
				r.f = func(i, j int, v float64) float64 { got += v * float64(1+i*200+j); return 0 }
				doWalk(m, WalkCase{M: c.M, Order: ord}, r)
				if got != want || math.IsNaN(got) {
					return fmt.Errorf("%s-order fold of %s %dx%d is %v, want %v", ord, c.M.Rep, c.M.R, c.M.C, got, want)
				}
			}
			return nil
		})
}
