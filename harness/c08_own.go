package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

// VOwnCase has a vector and an argument which are parts of one slice.
type VOwnCase struct {
	D    []F
	At   int // the vector is D[At:At+N], the argument D[From:From+M]
	N    int
	From int
	M    int
	I    int // SetSubVector: where
	Op   string
	Rep  string // of the argument
	A, B F
}

func genVOwn(t *rapid.T) VOwnCase {
	c := VOwnCase{Op: oneOf(t, []string{"CopyFrom", "Combine", "SetSubVector", "SetSubVectorWithSlice", "Add", "Subtract", "EBEMultiply", "EBEDivide", "AppendVector", "Copy"}, "op"),
		Rep: oneOf(t, []string{"array", "array", "custom"}, "rep")}
	dist := oneOf(t, []string{dInt, dFloat, dSpecial}, "dist")
	n := genDim(t, 40, "n")
	for i := 0; i < n; i++ {
		c.D = append(c.D, F(genVal(t, dist, "d")))
	}
	a, b := genRange(t, n, "part")
	c.At, c.N = a, b-a+1
	c.M = c.N
	switch c.Op {
	case "SetSubVector", "SetSubVectorWithSlice":
		p, q := genRange(t, c.N, "sub")
		c.I, c.M = p, q-p+1
	case "AppendVector":
		c.M = 1 + pick(t, n, "m")
	}
	c.From = pick(t, n-c.M+1, "from")
	c.A, c.B = F(genVal(t, dInt, "a")), F(genVal(t, dInt, "b"))
	return c
}

func checkVOwn(c VOwnCase, o *Obs) error {
	d := make([]float64, len(c.D))
	for i, x := range c.D {
		d[i] = float64(x)
	}
	old := append([]float64{}, d...)
	part := d[c.From : c.From+c.M : c.From+c.M]
	v := must(lin.NewArrayRealVector(d[c.At:c.At+c.N], false))
	var x lin.RealVector = must(lin.NewArrayRealVector(part, false))
	if c.Rep == "custom" {
		x = customVector{x}
	}
	dv, dx := old[c.At:c.At+c.N], old[c.From:c.From+c.M]
	a, b := float64(c.A), float64(c.B)
	want := append([]float64{}, old...)
	to := want[c.At : c.At+c.N]
	o.Label("op:" + c.Op)
	overlap := c.From < c.At+c.N && c.At < c.From+c.M
	o.LabelIf(overlap && c.From < c.At+c.I, "read ahead of the writes")
	o.NonTrivial(overlap && c.N > 1 && c.From != c.At+c.I)
	slack := 0.0
	var res lin.RealVector
	var dres []float64
	zip := func(f func(p, q float64) float64) []float64 {
		out := make([]float64, len(dv))
		for i := range dv {
			out[i] = f(dv[i], dx[i])
		}
		return out
	}
	switch c.Op {
	case "CopyFrom":
		v.CopyFrom(x)
		copy(to, dx)
	case "Combine":
		v.Combine(a, b, x)
		for i := range to {
			to[i] = a*dv[i] + b*dx[i]
		}
		slack = 4 * eps
	case "SetSubVector":
		v.SetSubVector(c.I, x)
		copy(to[c.I:], dx)
	case "SetSubVectorWithSlice":
		v.SetSubVectorWithSlice(c.I, part)
		copy(to[c.I:], dx)
	case "Add":
		res, dres = v.Add(x), zip(func(p, q float64) float64 { return p + q })
	case "Subtract":
		res, dres = v.Subtract(x), zip(func(p, q float64) float64 { return p - q })
	case "EBEMultiply":
		res, dres = v.EBEMultiply(x), zip(func(p, q float64) float64 { return p * q })
	case "EBEDivide":
		res, dres = v.EBEDivide(x), zip(func(p, q float64) float64 { return p / q })
	case "AppendVector":
		res, dres = v.AppendVector(x), append(append([]float64{}, dv...), dx...)
	case "Copy":
		res, dres = v.Copy(), dv
	default:
		hbug("op %q", c.Op)
	}
	if res != nil {
		if err := matchVec(c.Op+" result", res, dres); err != nil {
			return err
		}
	}
	for i := range d {
		if j := i - c.At; slack > 0 && j >= 0 && j < c.N && math.Abs(d[i]-want[i]) <= slack*(math.Abs(a*dv[j])+math.Abs(b*dx[j])) {
			continue // fused or reordered
		}
		if !same(d[i], want[i]) {
			return fmt.Errorf("%s of entries %d to %d, from entries %d to %d of the same slice: entry %d is %v, want %v", c.Op, c.At, c.At+c.N-1, c.From, c.From+c.M-1, i, d[i], want[i])
		}
	}
	return nil
}

func init() {
	Register("C08", "own-storage", "ten operations on a vector and an argument, built-in or foreign, that are parts of one slice, overlapping or not, compared entry by entry with what the slice held before; non-trivial: they overlap without being the same and the vector has more than one entry",
		20000, 400000, genVOwn, checkVOwn)
}
