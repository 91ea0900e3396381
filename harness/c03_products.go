package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

const eps = 0x1p-52

// prodMatch compares a product with the textbook sum. exact: integer data.
func prodMatch(what string, got lin.RealMatrix, a, b Dense, exact bool) error {
	if got == nil {
		return fmt.Errorf("%s: nil", what)
	}
	if got.RowDimension() != a.rows() || got.ColumnDimension() != b.cols() {
		return fmt.Errorf("%s: is %dx%d, want %dx%d", what, got.RowDimension(), got.ColumnDimension(), a.rows(), b.cols())
	}
	if exact {
		return matchModel(what, got, a.mul(b))
	}
	return boundMatch(what, toDense(got), a, b)
}

// boundMatch: |got - ab| <= 2(n+2) eps |a||b| entrywise, both sides rounded.
func boundMatch(what string, got, a, b Dense) error {
	w := a.mul(b)
	ab := a.abs().mul(b.abs())
	n := float64(a.cols() + 2)
	for i := range w {
		for j := range w[i] {
			if !(math.Abs(got[i][j]-w[i][j]) <= 2*n*eps*ab[i][j]) {
				return fmt.Errorf("%s: entry (%d,%d) of %dx%d is %v, want %v (rounding bound %.3g)", what, i, j, w.rows(), w.cols(), got[i][j], w[i][j], 2*n*eps*ab[i][j])
			}
		}
	}
	return nil
}

type ProdCase struct {
	A, B Mat
	Self bool
	Op   string // Multiply, PreMultiplyMatrix
}

type MatVecCase struct {
	A  Mat
	V  Vec
	Op string
}

func isExact(dist string) bool { return dist == dInt || dist == dTiny }

func init() {
	Register("C03", "matmul", "A*B and A.PreMultiplyMatrix on random compatible shapes (each of the three dimensions independently at block edges), all representation pairs, integer entries compared exactly and real ones within the rounding bound; non-trivial: inner dimension over 1",
		25000, 500000,
		func(t *rapid.T) ProdCase {
			var c ProdCase
			c.Op = oneOf(t, []string{"Multiply", "Multiply", "PreMultiplyMatrix"}, "op")
			dist := oneOf(t, []string{dInt, dInt, dFloat, dWide}, "dist")
			n, k, m := genDim(t, 120, "n"), genDim(t, 120, "k"), genDim(t, 120, "m")
			ra, rb := genRep(t, allReps, "ra"), genRep(t, allReps, "rb")
			if ra == "diag" {
				k = n
			}
			if rb == "diag" {
				m = k
			}
			c.A = genMat(t, ra, n, k, dist, "a")
			c.B = genMat(t, rb, k, m, dist, "b")
			c.Self = n == k && pct(t, 25, "self")
			// record the value class for explicit entries too
			c.A.Dist = dist
			return c
		},
		func(c ProdCase, o *Obs) error {
			a, da := c.A.build()
			b, db := c.B.build()
			if c.Self {
				b, db = a, da
			}
			o.NonTrivial(c.A.C > 1)
			o.Label("pair:" + c.A.Rep + "*" + c.B.Rep)
			o.LabelIf(c.A.C > 52, "inner-several-blocks")
			what := fmt.Sprintf("%s (%s %dx%d, %s %dx%d)", c.Op, c.A.Rep, c.A.R, c.A.C, c.B.Rep, db.rows(), db.cols())
			var got lin.RealMatrix
			if c.Op == "Multiply" {
				got = a.Multiply(b)
			} else {
				got = b.PreMultiplyMatrix(a)
			}
			return prodMatch(what, got, da, db, isExact(c.A.Dist))
		})

	Register("C03", "matvec", "Operate, OperateVector, PreMultiply, PreMultiplyVector on random shapes, representations and built-in or foreign vectors; non-trivial: more than one entry",
		50000, 1000000,
		func(t *rapid.T) MatVecCase {
			var c MatVecCase
			c.Op = oneOf(t, []string{"Operate", "OperateVector", "PreMultiply", "PreMultiplyVector"}, "op")
			dist := oneOf(t, []string{dInt, dInt, dFloat, dWide}, "dist")
			n, k := genDim(t, 160, "n"), genDim(t, 160, "k")
			ra := genRep(t, allReps, "ra")
			if ra == "diag" {
				k = n
			}
			c.A = genMat(t, ra, n, k, dist, "a")
			c.A.Dist = dist
			l := k
			if c.Op[0] == 'P' {
				l = n
			}
			c.V = genVec(t, genRep(t, vecReps, "vr"), l, dist, "v")
			return c
		},
		func(c MatVecCase, o *Obs) error {
			a, da := c.A.build()
			v, dv := c.V.build()
			o.NonTrivial(c.A.R*c.A.C > 1)
			o.Label(c.Op + ":" + c.A.Rep + ":" + c.V.Rep)
			var got []float64
			left := da
			switch c.Op {
			case "Operate":
				got = a.Operate(dv)
			case "OperateVector":
				got = toSlice(a.OperateVector(v))
			case "PreMultiply":
				got = a.PreMultiply(dv)
				left = da.t()
			case "PreMultiplyVector":
				got = toSlice(a.PreMultiplyVector(v))
				left = da.t()
			}
			what := fmt.Sprintf("%s (%s %dx%d)", c.Op, c.A.Rep, c.A.R, c.A.C)
			if len(got) != left.rows() {
				return fmt.Errorf("%s: result has %d elements, want %d", what, len(got), left.rows())
			}
			if isExact(c.A.Dist) {
				return matchSlice(what, got, col(left.mul(fromCol(dv)), 0))
			}
			return boundMatch(what, fromCol(got), left, fromCol(dv))
		})

	type scaledCase struct {
		A, B   Mat
		U      Vec
		Op     string
		EA, EB int // powers of two
	}
	Register("C03", "scaled", "products of matrices and vectors of small integers multiplied by powers of two down to the smallest and up to the largest numbers, where every product and sum still is exact; non-trivial: inner dimension over 1",
		12000, 200000,
		func(t *rapid.T) scaledCase {
			n, k, m := genDim(t, 70, "n"), genDim(t, 70, "k"), genDim(t, 70, "m")
			c := scaledCase{Op: oneOf(t, []string{"Multiply", "PreMultiplyMatrix", "Operate", "PreMultiply", "OperateVector", "PreMultiplyVector", "VecDotProduct", "OuterProduct"}, "op")}
			if c.Op == "OuterProduct" || c.Op == "VecDotProduct" {
				m = 1
			}
			ra, rb := genRep(t, allReps, "ra"), genRep(t, allReps, "rb")
			if ra == "diag" {
				k = n
			}
			if rb == "diag" {
				m = k
			}
			dist := oneOf(t, []string{dInt, dTiny}, "dist")
			c.A, c.B = genMat(t, ra, n, k, dist, "a"), genMat(t, rb, k, m, dist, "b")
			c.U = Vec{Rep: genRep(t, vecReps, "vr"), N: 1} // its storage only
			sum := oneOf(t, []int{-1074, -1070, -1040, -1022, -1000, -700, -300, 0, 600, 1000}, "sum")
			c.EA = sum/2 + pick(t, 401, "ea") - 200
			c.EB = sum - c.EA
			return c
		},
		func(c scaledCase, o *Obs) error {
			scaled := func(x Mat, e int) (lin.RealMatrix, Dense) {
				d := x.dense()
				for i := range d {
					for j := range d[i] {
						d[i][j] = math.Ldexp(d[i][j], e)
					}
				}
				return buildMat(x.Rep, d), d
			}
			a, da := scaled(c.A, c.EA)
			b, db := scaled(c.B, c.EB)
			o.NonTrivial(c.A.C > 1)
			o.Label(c.Op)
			o.LabelIf(c.EA+c.EB < -1022, "subnormal")
			o.LabelIf(c.EA+c.EB > 900, "huge")
			what := fmt.Sprintf("%s (%s %dx%d times 2^%d, %s %dx%d times 2^%d)", c.Op, c.A.Rep, c.A.R, c.A.C, c.EA, c.B.Rep, c.B.R, c.B.C, c.EB)
			y := col(db, 0)
			v := buildVec(c.U.Rep, y)
			x := da[len(da)-1]
			switch c.Op {
			case "Multiply":
				return matchModel(what, a.Multiply(b), da.mul(db))
			case "PreMultiplyMatrix":
				return matchModel(what, b.PreMultiplyMatrix(a), da.mul(db))
			case "Operate":
				return matchSlice(what, a.Operate(y), col(da.mul(fromCol(y)), 0))
			case "OperateVector":
				return matchVec(what, a.OperateVector(v), col(da.mul(fromCol(y)), 0))
			case "PreMultiply":
				return matchSlice(what, b.PreMultiply(x), Dense{x}.mul(db)[0])
			case "PreMultiplyVector":
				return matchVec(what, b.PreMultiplyVector(buildVec(c.U.Rep, x)), Dense{x}.mul(db)[0])
			case "VecDotProduct":
				return close_(what, lin.VecDotProduct(buildVec(c.U.Rep, x), v), Dense{x}.mul(fromCol(y))[0][0], 0)
			case "OuterProduct":
				u := col(da, 0)
				return matchModel(what, lin.OuterProduct(buildVec(c.U.Rep, u), v), fromCol(u).mul(Dense{y}))
			}
			hbug("op %q", c.Op)
			return nil
		})

	type nfCase struct {
		A, B Mat
		Op   string
	}
	Register("C03", "nonfinite", "products of dense matrices with scattered NaN and infinite entries (others small integers): a NaN or an infinite contribution reaches exactly the entries whose sum contains it; non-trivial: some entry is not finite",
		15000, 200000,
		func(t *rapid.T) nfCase {
			n, k, m := genDim(t, 70, "n"), genDim(t, 70, "k"), genDim(t, 70, "m")
			c := nfCase{A: genMat(t, genRep(t, denseReps, "ra"), n, k, dInt, "a"), B: genMat(t, genRep(t, denseReps, "rb"), k, m, dInt, "b")}
			c.Op = oneOf(t, []string{"Multiply", "Operate", "PreMultiply", "OperateVector", "PreMultiplyVector"}, "op")
			poison := func(x *Mat, l string) {
				d := x.dense()
				x.D, x.Seed = make([]F, x.R*x.C), 0
				for i := range d {
					for j := range d[i] {
						x.D[i*x.C+j] = F(d[i][j])
					}
				}
				// zeros opposite to what is not finite: bands or scattered
				switch pick(t, 6, l+"zeros") {
				case 1, 2: // columns from z on, or up to z
					z, tail := pick(t, x.C, l+"z"), pct(t, 50, l+"tail")
					for i := 0; i < x.R; i++ {
						for j := 0; j < x.C; j++ {
							if j == z || (j > z) == tail {
								x.D[i*x.C+j] = 0
							}
						}
					}
				case 3: // rows
					z, tail := pick(t, x.R, l+"z"), pct(t, 50, l+"tail")
					for i := 0; i < x.R; i++ {
						for j := 0; j < x.C; j++ {
							if i == z || (i > z) == tail {
								x.D[i*x.C+j] = 0
							}
						}
					}
				case 4: // scattered
					z := uint64(pick(t, 1<<16, l+"z"))
					for i := range x.D {
						z = z*6364136223846793005 + 1442695040888963407
						if z>>62 != 0 {
							x.D[i] = 0
						}
					}
				}
				for q := pick(t, 3, l+"n"); q > 0; q-- {
					// anywhere, or next to the end of the rows and columns
					i, j := pick(t, x.R, l+"i"), pick(t, x.C, l+"j")
					if pct(t, 40, l+"edge") {
						i, j = x.R-1-i%mini(x.R, 8), x.C-1-j%mini(x.C, 8)
					}
					x.D[i*x.C+j] = oneOf(t, []F{F(math.NaN()), F(math.Inf(1)), F(math.Inf(-1))}, l+"v")
				}
			}
			if c.Op != "Multiply" && c.Op != "Operate" && c.Op != "OperateVector" {
				// vector on the left: first row of A
				c.A.R = 1
				c.A.D, c.A.Seed = nil, uint64(pick(t, 1000, "as"))
				c.A.Dist = dInt
			} else if c.Op != "Multiply" {
				c.B.C = 1
				c.B.D, c.B.Seed = nil, uint64(pick(t, 1000, "bs"))
				c.B.Dist = dInt
			}
			poison(&c.A, "pa")
			poison(&c.B, "pb")
			return c
		},
		func(c nfCase, o *Obs) error {
			a, da := c.A.build()
			b, db := c.B.build()
			w := da.mulIEEE(db)
			nf := false
			for i := range w {
				for j := range w[i] {
					nf = nf || math.IsNaN(w[i][j]) || math.IsInf(w[i][j], 0)
				}
			}
			o.NonTrivial(nf)
			o.Label(c.Op)
			what := fmt.Sprintf("%s (%s, %s)", c.Op, c.A.Rep, c.B.Rep)
			switch c.Op {
			case "Multiply":
				return matchModel(what, a.Multiply(b), w)
			case "Operate":
				return matchSlice(what, a.Operate(col(db, 0)), col(w, 0))
			case "OperateVector":
				return matchVec(what, a.OperateVector(buildVec("array", col(db, 0))), col(w, 0))
			case "PreMultiply":
				return matchSlice(what, b.PreMultiply(da[0]), w[0])
			case "PreMultiplyVector":
				return matchVec(what, b.PreMultiplyVector(buildVec("array", da[0])), w[0])
			}
			return nil
		})

	type powCase struct {
		Kind string
		A    Mat
		Seed uint64
		P    int
	}
	Register("C03", "power", "matrix powers: small integer matrices with small exponents, signed permutation and strictly triangular matrices with exponents into the hundreds, diagonal matrices; exact comparison with repeated multiplication; non-trivial: exponent over 1",
		20000, 300000,
		func(t *rapid.T) powCase {
			c := powCase{Kind: oneOf(t, []string{"general", "signedperm", "nilpotent", "diag", "signedperm"}, "kind")}
			rep := genRep(t, denseReps, "rep")
			switch c.Kind {
			case "general":
				n := 1 + pick(t, 4, "n")
				c.A = genMat(t, rep, n, n, dTiny, "a")
				c.P = pick(t, 13, "p")
			case "diag":
				n := 1 + pick(t, 5, "n")
				c.A = genMat(t, "diag", n, n, dTiny, "a")
				c.P = pick(t, 30, "p")
			default:
				n := genDim(t, 60, "n")
				c.A = Mat{Rep: rep, R: n, C: n}
				c.Seed = uint64(pick(t, 1<<20, "seed"))
				c.P = oneOf(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257}, "p")
			}
			return c
		},
		func(c powCase, o *Obs) error {
			var d Dense
			n := c.A.R
			switch c.Kind {
			case "general", "diag":
				d = c.A.dense()
			case "signedperm":
				d = newDense(n, n)
				r := splitmix{c.Seed}
				perm := permutation(&r, n)
				for i := range perm {
					d[i][perm[i]] = float64(1 - 2*r.intn(2))
				}
			case "nilpotent":
				d = newDense(n, n)
				r := splitmix{c.Seed}
				for i := range d {
					if i+1 < n {
						d[i][i+1] = float64(r.sym(1))
					}
				}
			}
			m := buildMat(c.A.Rep, d)
			want := identity(n)
			for i := 0; i < c.P; i++ {
				want = want.mul(d)
			}
			o.NonTrivial(c.P > 1)
			o.Label(c.Kind)
			if err := matchModel(fmt.Sprintf("Power(%s %dx%d, %d)", c.A.Rep, n, n, c.P), lin.Power(m, c.P), want); err != nil {
				return err
			}
			return matchModel("the base of Power", m, d)
		})

	type outerCase struct{ U, V Vec }
	Register("C03", "outer", "outer products of built-in and foreign vectors, exact; non-trivial: more than one entry",
		15000, 200000,
		func(t *rapid.T) outerCase {
			dist := oneOf(t, []string{dInt, dSpecial, dFloat}, "dist")
			return outerCase{genVec(t, genRep(t, vecReps, "ur"), genDim(t, 110, "m"), dist, "u"), genVec(t, genRep(t, vecReps, "vr"), genDim(t, 110, "n"), dist, "v")}
		},
		func(c outerCase, o *Obs) error {
			u, du := c.U.build()
			v, dv := c.V.build()
			w := newDense(len(du), len(dv))
			for i := range w {
				for j := range w[i] {
					w[i][j] = du[i] * dv[j]
				}
			}
			o.NonTrivial(len(du)*len(dv) > 1)
			return matchModel("OuterProduct", lin.OuterProduct(u, v), w)
		})
}

func permutation(r *splitmix, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
