package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type ArithCase struct {
	A, B Mat
	Self bool // use the same object for both operands
	S    F
	Op   string
}

var arithOps = []string{"Add", "Subtract", "ScalarAdd", "ScalarMultiply", "Transpose", "Trace", "Copy"}

func genArith(t *rapid.T) ArithCase {
	c := ArithCase{Op: oneOf(t, arithOps, "op")}
	dist := oneOf(t, []string{dInt, dFloat, dSpecial, dSpecial, dWide}, "dist")
	r, k := genDim(t, 120, "r"), genDim(t, 120, "c")
	repA := genRep(t, allReps, "repA")
	repB := genRep(t, allReps, "repB")
	if c.Op == "Trace" || repA == "diag" || repB == "diag" {
		k = r
	}
	if repA == "diag" && repB != "diag" && (c.Op == "Add" || c.Op == "Subtract") {
		// the sum with a general matrix need not be diagonal: refused by design,
		// decided under C26. Here the other operand has diagonal content.
		c.B = genMat(t, "diag", r, k, dist, "b")
		c.B.Rep = "diagcontent:" + repB
	} else {
		c.B = genMat(t, repB, r, k, dist, "b")
	}
	c.A = genMat(t, repA, r, k, dist, "a")
	c.Self = pct(t, 10, "self")
	c.S = F(genVal(t, dist, "s"))
	if repA == "diag" {
		// off-diagonal results must stay zero: finite factors only, no scalar
		// addition except of zero
		if c.Op == "ScalarMultiply" && (math.IsNaN(float64(c.S)) || math.IsInf(float64(c.S), 0)) {
			c.S = F(genVal(t, dInt, "s"))
		}
		if c.Op == "ScalarAdd" {
			c.S = 0
			if pct(t, 50, "neg0") {
				c.S = F(math.Copysign(0, -1))
			}
		}
	}
	return c
}

// buildAny also understands "diagcontent:REP": diagonal content in storage REP.
func buildAny(m Mat) (lin.RealMatrix, Dense) {
	const p = "diagcontent:"
	if len(m.Rep) > len(p) && m.Rep[:len(p)] == p {
		rep := m.Rep[len(p):]
		m.Rep = "diag"
		d := m.dense()
		return buildMat(rep, d), d
	}
	return m.build()
}

func entrywise(a, b Dense, f func(x, y float64) float64) Dense {
	o := newDense(a.rows(), a.cols())
	for i := range o {
		for j := range o[i] {
			o[i][j] = f(a[i][j], b[i][j])
		}
	}
	return o
}

func checkArith(c ArithCase, o *Obs) error {
	a, da := c.A.build()
	b, db := buildAny(c.B)
	if c.Self {
		b, db = a, da
	}
	s := float64(c.S)
	o.Label(c.Op)
	o.Label("repA:" + c.A.Rep)
	o.LabelIf(c.A.R > 52 || c.A.C > 52, "several-blocks")
	o.NonTrivial(c.A.R*c.A.C > 1)
	name := fmt.Sprintf("%s (%s, %s)", c.Op, c.A.Rep, c.B.Rep)
	switch c.Op {
	case "Add":
		return matchModel(name, a.Add(b), entrywise(da, db, func(x, y float64) float64 { return x + y }))
	case "Subtract":
		return matchModel(name, a.Subtract(b), entrywise(da, db, func(x, y float64) float64 { return x - y }))
	case "ScalarAdd":
		return matchModel(name, a.ScalarAdd(s), entrywise(da, da, func(x, _ float64) float64 { return x + s }))
	case "ScalarMultiply":
		w := entrywise(da, da, func(x, _ float64) float64 { return x * s })
		return matchModel(name, a.ScalarMultiply(s), w)
	case "Transpose":
		tr := a.Transpose()
		if err := matchModel(name, tr, da.t()); err != nil {
			return err
		}
		return matchModel(name+" twice", tr.Transpose(), da)
	case "Copy":
		return matchModel(name, a.Copy(), da)
	case "Trace":
		got := a.Trace()
		sum, abs := 0.0, 0.0
		var nan, pinf, ninf bool
		for i := range da {
			x := da[i][i]
			nan = nan || math.IsNaN(x)
			pinf = pinf || math.IsInf(x, 1)
			ninf = ninf || math.IsInf(x, -1)
			sum += x
			if !math.IsInf(x, 0) {
				abs += math.Abs(x)
			}
		}
		switch {
		case nan || (pinf && ninf):
			if !math.IsNaN(got) {
				return fmt.Errorf("%s = %v, want NaN", name, got)
			}
		case math.IsInf(abs, 0):
			return nil // overflow: depends on the order of summation
		case pinf || ninf:
			if !same(got, sum) {
				return fmt.Errorf("%s = %v, want %v", name, got, sum)
			}
		default:
			if !(math.Abs(got-sum) <= float64(len(da))*0x1p-52*abs) {
				return fmt.Errorf("%s = %v, want %v", name, got, sum)
			}
		}
	}
	return nil
}

func init() {
	Register("C02", "entrywise", "random operation, shapes (block edges included), representation pairs (array, block, diagonal, foreign, same object twice) and values (NaN, infinities, signed zeros, subnormals included); every entry compared exactly with the IEEE result; non-trivial: more than one entry",
		60000, 1500000, genArith, checkArith)

	type chainCase struct {
		Ms  []Mat
		Ops []struct {
			K string
			I int
			S F
		}
	}
	Register("C02", "chains", "chains of sums, differences, scalings, transposes and copies where each result (whatever storage it has) is an operand of the next; compared with the model after every step; non-trivial: at least two steps",
		15000, 300000,
		func(t *rapid.T) chainCase {
			var c chainCase
			r, k := genDim(t, 70, "r"), genDim(t, 70, "c")
			n := 1 + pick(t, 3, "nm")
			square := pct(t, 30, "sq")
			if square {
				k = r
			}
			for i := 0; i < n; i++ {
				reps := denseReps
				if square && i > 0 {
					reps = allReps
				}
				c.Ms = append(c.Ms, genMat(t, genRep(t, reps, "rep"), r, k, dInt, "m"))
			}
			steps := 1 + pick(t, 8, "steps")
			for i := 0; i < steps; i++ {
				c.Ops = append(c.Ops, struct {
					K string
					I int
					S F
				}{oneOf(t, []string{"Add", "Subtract", "AddTo", "ScalarAdd", "ScalarMultiply", "Transpose", "Copy"}, "k"), pick(t, n, "i"), F(genVal(t, dTiny, "s"))})
			}
			return c
		},
		func(c chainCase, o *Obs) error {
			cur, d := c.Ms[0].build()
			o.NonTrivial(len(c.Ops) >= 2)
			transposed := false
			for k, op := range c.Ops {
				m, dm := c.Ms[op.I].build()
				if transposed {
					m, dm = m.Transpose(), dm.t()
				}
				s := float64(op.S)
				switch op.K {
				case "Add":
					cur, d = cur.Add(m), d.add(dm)
				case "AddTo":
					// the foreign operand on the left; a diagonal one only holds
					// diagonal results, so it is skipped
					if c.Ms[op.I].Rep == "diag" {
						continue
					}
					cur, d = m.Add(cur), dm.add(d)
				case "Subtract":
					cur, d = cur.Subtract(m), d.sub(dm)
				case "ScalarAdd":
					cur = cur.ScalarAdd(s)
					d = entrywise(d, d, func(x, _ float64) float64 { return x + s })
				case "ScalarMultiply":
					cur, d = cur.ScalarMultiply(s), d.scale(s)
				case "Transpose":
					cur, d = cur.Transpose(), d.t()
					transposed = !transposed
				case "Copy":
					cur = cur.Copy()
				}
				if err := matchModel(fmt.Sprintf("after step %d (%s)", k, op.K), cur, d); err != nil {
					return err
				}
			}
			return nil
		})
}
