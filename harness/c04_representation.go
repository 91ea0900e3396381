package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// A program works on three registers: 0 and 1 hold r x c matrices, 2 holds a
// c x c matrix. It is run once per assignment of representations and every
// observation is compared with the run on plain arrays.
type ProgOp struct {
	K    string
	A, B int // registers
	Op   *Op `json:",omitempty"`
	S    F
	Idx  []int `json:",omitempty"`
	Jdx  []int `json:",omitempty"`
}

type ProgCase struct {
	R, C  int
	Exact bool
	M     [3]Mat
	Reps  [][3]string
	Prog  []ProgOp
	Fact  bool // also run with the size-dependent factory
}

type observation struct {
	what  string
	vals  Dense
	exact bool
	tol   float64
}

func runProgram(c ProgCase, reps [3]string) (obs []observation) {
	var reg [3]lin.RealMatrix
	for i := range reg {
		reg[i] = buildMat(reps[i], c.M[i].dense())
	}
	scale := 1.0
	see := func(what string, d Dense, exact bool) {
		scale = math.Max(scale, d.maxAbs()) // rounding differences scale with the largest value so far
		obs = append(obs, observation{what, d, exact, 1e-11 * scale})
	}
	for k, p := range c.Prog {
		w := fmt.Sprintf("step %d (%s r%d r%d)", k, p.K, p.A, p.B)
		a := reg[p.A]
		b := reg[p.B]
		switch p.K {
		case "write":
			d := toDense(a)
			o := *p.Op
			// applyOp also compares with the plain model
			if err := applyOp(a, d, o); err != nil {
				panic(fmt.Sprintf("%s: %v", w, err))
			}
			see(w, toDense(a), true)
		case "add":
			reg[p.A] = a.Add(b)
			see(w, toDense(reg[p.A]), true)
		case "sub":
			reg[p.A] = a.Subtract(b)
			see(w, toDense(reg[p.A]), true)
		case "scale":
			reg[p.A] = a.ScalarMultiply(float64(p.S))
			see(w, toDense(reg[p.A]), true)
		case "shift":
			reg[p.A] = a.ScalarAdd(float64(p.S))
			see(w, toDense(reg[p.A]), true)
		case "copy":
			reg[p.A] = a.Copy()
			see(w, toDense(reg[p.A]), true)
		case "mul2": // r x c times c x c
			pr := a.Multiply(reg[2])
			see(w, toDense(pr), c.Exact)
			if pr.ColumnDimension() == c.C && toDense(pr).maxAbs() < 1e6 {
				reg[p.A] = pr
			}
		case "premul":
			see(w, toDense(reg[2].PreMultiplyMatrix(a)), c.Exact)
		case "gram":
			g := a.Transpose().Multiply(b)
			see(w, toDense(g), c.Exact)
			if toDense(g).maxAbs() < 1e6 {
				reg[2] = g
			}
		case "trmul":
			see(w, toDense(a.Multiply(b.Transpose())), c.Exact)
		case "operate":
			see(w, fromCol(a.Operate(toDense(b)[0])), c.Exact)
		case "operatevec":
			see(w, fromCol(toSlice(a.OperateVector(b.RowVectorAt(0)))), c.Exact)
		case "premulv":
			see(w, fromCol(a.PreMultiply(b.ColumnAt(0))), c.Exact)
		case "premulvec":
			see(w, fromCol(toSlice(a.PreMultiplyVector(b.ColumnVectorAt(0)))), c.Exact)
		case "transpose2":
			reg[2] = reg[2].Transpose()
			see(w, toDense(reg[2]), true)
		case "sub-index":
			see(w, toDense(lin.SubMatrix(a, p.Idx, p.Jdx)), true)
		case "norms":
			see(w, Dense{{lin.MatFrobeniusNorm(a), lin.MatLInfNorm(a)}}, false)
			see(w+" trace", Dense{{reg[2].Trace()}}, c.Exact)
		case "equals":
			if !c.Exact {
				continue
			}
			x := 0.0
			if a.Equals(b) {
				x = 1
			}
			if b.Equals(a) {
				x += 2
			}
			see(w, Dense{{x}}, true)
		case "power":
			if c.C <= 8 && toDense(reg[2]).maxAbs() <= 20 {
				see(w, toDense(lin.Power(reg[2], 3)), c.Exact)
			}
		case "solve":
			// well conditioned: diagonally dominant version of register 2
			d := toDense(reg[2])
			mx := d.maxAbs()
			dd := d.clone()
			for i := range dd {
				dd[i][i] += (mx + 1) * float64(len(dd)+1)
			}
			m := buildMat(reps[2], dd)
			rhs := reg[p.A].Transpose() // c x r
			lu := must(lin.NewLUDecomposition(m))
			x := lu.Solver().SolveMatrix(rhs)
			see(w+" LU", toDense(x), false)
			see(w+" det sign", Dense{{math.Copysign(1, lu.Determinant())}}, true)
			see(w+" LU vector", fromCol(toSlice(lu.Solver().SolveVector(reg[p.A].RowVectorAt(0)))), false)
			qr := must(lin.NewQRDecomposition(m))
			see(w+" QR", toDense(qr.Solver().SolveMatrix(rhs)), false)
			if c.C <= 60 {
				see(w+" SVD inverse", toDense(must(lin.NewSingularValueDecomposition(m)).Solver().Inverse()), false)
			}
		}
	}
	for i := range reg {
		see(fmt.Sprintf("register %d at the end", i), toDense(reg[i]), c.Exact)
	}
	return obs
}

func genProgram(t *rapid.T, exact bool) ProgCase {
	var c ProgCase
	c.Exact = exact
	dist := dTiny
	if !exact {
		dist = dFloat
	}
	c.R, c.C = genDim(t, 110, "r"), genDim(t, 110, "c")
	for i := 0; i < 3; i++ {
		r := c.R
		if i == 2 {
			r = c.C
		}
		c.M[i] = genMat(t, "array", r, c.C, dist, "m")
	}
	n := 1 + pick(t, 7, "n")
	kinds := []string{"write", "write", "write", "add", "sub", "scale", "shift", "copy", "mul2", "premul", "gram", "trmul", "operate", "operatevec", "premulv", "premulvec", "transpose2", "sub-index", "norms", "equals", "power", "solve"}
	for i := 0; i < n; i++ {
		p := ProgOp{K: oneOf(t, kinds, "k"), A: pick(t, 2, "a"), B: pick(t, 2, "b")}
		switch p.K {
		case "write":
			op := genOp(t, c.R, c.C, dist)
			p.Op = &op
		case "scale", "shift":
			p.S = F(genVal(t, dTiny, "s"))
		case "sub-index":
			for k := 1 + pick(t, 4, "ni"); k > 0; k-- {
				p.Idx = append(p.Idx, genIdx(t, c.R, "i"))
			}
			for k := 1 + pick(t, 4, "nj"); k > 0; k-- {
				p.Jdx = append(p.Jdx, genIdx(t, c.C, "j"))
			}
		}
		c.Prog = append(c.Prog, p)
	}
	reps := []string{"array", "arrayref", "block", "block", "default", "custom", "customblock"}
	for k := 0; k < 2; k++ {
		c.Reps = append(c.Reps, [3]string{oneOf(t, reps, "rep"), oneOf(t, reps, "rep"), oneOf(t, reps, "rep")})
	}
	c.Reps = append(c.Reps, [3]string{"block", "block", "block"})
	return c
}

func checkProgram(c ProgCase, o *Obs) error {
	ref := runProgram(c, [3]string{"array", "array", "array"})
	o.NonTrivial(c.R*c.C > 1)
	o.LabelIf(c.R*c.C > 4096 || c.C*c.C > 4096, "above-factory-threshold")
	o.LabelIf(c.R > 52 || c.C > 52, "several-blocks")
	for _, p := range c.Prog {
		o.Label("op:" + p.K)
	}
	for _, reps := range c.Reps {
		got := runProgram(c, reps)
		if len(got) != len(ref) {
			return fmt.Errorf("on %v: %d observations, %d on arrays", reps, len(got), len(ref))
		}
		for i := range ref {
			what := fmt.Sprintf("storages %v (%dx%d): %s", reps, c.R, c.C, ref[i].what)
			if ref[i].exact && c.Exact {
				if got[i].vals.rows() != ref[i].vals.rows() || got[i].vals.cols() != ref[i].vals.cols() {
					return fmt.Errorf("%s: shape %dx%d, on arrays %dx%d", what, got[i].vals.rows(), got[i].vals.cols(), ref[i].vals.rows(), ref[i].vals.cols())
				}
				for r := range ref[i].vals {
					if err := matchSlice(what+fmt.Sprintf(" row %d", r), got[i].vals[r], ref[i].vals[r]); err != nil {
						return err
					}
				}
			} else if err := near(what, got[i].vals, ref[i].vals, ref[i].tol); err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	Register("C04", "exact-programs", "random programs of writes, arithmetic, products, extractions, norms, equality, powers and solves over three matrices of small integers, run on plain arrays and on three assignments of storages (array, block, default factory, foreign); integer observations must be equal, norms and solves equal to rounding; non-trivial: more than one entry",
		6000, 100000,
		func(t *rapid.T) ProgCase { return genProgram(t, true) }, checkProgram)
	Register("C04", "real-programs", "the same programs over real-valued matrices, entrywise steps and products equal to rounding; non-trivial: more than one entry",
		3000, 50000,
		func(t *rapid.T) ProgCase { return genProgram(t, false) }, checkProgram)

	type facCase struct{ M Mat }
	Register("C04", "factories", "the size-dependent factories build matrices equal to explicitly chosen storages, on both sides of the threshold; entries, equality in both directions, copies and identity; non-trivial: more than one entry",
		3000, 50000,
		func(t *rapid.T) facCase {
			r := genDim(t, 130, "r")
			c := genDim(t, 130, "c")
			if pct(t, 30, "thr") { // products just around 4096
				x := oneOf(t, [][2]int{{64, 64}, {63, 65}, {64, 65}, {1, 4096}, {1, 4097}, {4096, 1}, {4097, 1}, {32, 128}, {32, 129}, {2, 2048}, {2049, 2}, {241, 17}, {17, 241}}, "edge")
				r, c = x[0], x[1]
			}
			return facCase{genMat(t, "array", r, c, dInt, "m")}
		},
		func(c facCase, o *Obs) error {
			d := c.M.dense()
			def := must(lin.NewRealMatrixFromSlices(d))
			o.NonTrivial(c.M.R*c.M.C > 1)
			o.LabelIf(c.M.R*c.M.C > 4096, "above-factory-threshold")
			if err := matchModel("NewRealMatrixFromSlices", def, d); err != nil {
				return err
			}
			z := must(lin.NewRealMatrixWithDimension(c.M.R, c.M.C))
			if err := matchModel("NewRealMatrixWithDimension", z, newDense(c.M.R, c.M.C)); err != nil {
				return err
			}
			z.SetSubMatrix(d, 0, 0)
			for _, rep := range []string{"array", "block", "custom"} {
				m := buildMat(rep, d)
				if !def.Equals(m) || !m.Equals(def) || !z.Equals(m) {
					return fmt.Errorf("%dx%d: default storage and %s storage are not equal", c.M.R, c.M.C, rep)
				}
				if err := matchModel("sum with "+rep, def.Add(m), d.add(d)); err != nil {
					return err
				}
				if c.M.C <= 130 {
					if err := matchModel("product with "+rep, def.Transpose().Multiply(m), d.t().mul(d)); err != nil {
						return err
					}
				}
			}
			return nil
		})
}
