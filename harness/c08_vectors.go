package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
	"pgregory.net/rapid"
)

type VOp struct {
	K    string
	I, N int
	A, B F
	X    *Vec
	Self bool // the vector itself is the argument
	Keep bool // go on with the result
	View int  // >0: the argument is a view of this vector's own storage from View-1 on
}

type VHistCase struct {
	V   Vec
	Ctr string
	Ops []VOp
}

var vOps = []string{"At", "SetEntry", "AddToEntry", "Set", "MapAdd", "MapSubtract", "MapMultiply", "MapDivide", "Map", "Combine", "CopyFrom",
	"SetSubVector", "SetSubVectorWithSlice", "Add", "Subtract", "EBEMultiply", "EBEDivide", "AppendVector", "Append", "SubVector", "Copy", "ToArray",
	"Iterator", "IsNaN", "IsInf", "Dimension", "WalkUpdate", "DataRef"}

func genVHist(t *rapid.T) VHistCase {
	dist := oneOf(t, []string{dInt, dInt, dFloat, dSpecial, dSpecial}, "dist")
	n := genDim(t, 40, "n") - 1
	c := VHistCase{V: genVec(t, genRep(t, vecReps, "rep"), n, dist, "v")}
	if c.V.D == nil {
		c.V.Dist = dist
	}
	c.Ctr = oneOf(t, []string{"slice", "copy", "vector", "real", "preset", "sized", "two", "twoArray", "ref"}, "ctr")
	steps := 1 + pick(t, 10, "steps")
	for k := 0; k < steps; k++ {
		o := VOp{K: oneOf(t, vOps, "k")}
		o.A, o.B = F(genVal(t, dist, "a")), F(genVal(t, dist, "b"))
		o.Self = pct(t, 12, "self")
		o.Keep = pct(t, 35, "keep")
		switch o.K {
		case "At", "SetEntry", "AddToEntry", "SubVector", "WalkUpdate", "SetSubVector", "SetSubVectorWithSlice":
			if n == 0 {
				continue
			}
			a, b := genRange(t, n, "i")
			o.I, o.N = a, b-a+1
		}
		switch o.K {
		case "Combine", "CopyFrom", "Add", "Subtract", "EBEMultiply", "EBEDivide":
			v := genVec(t, genRep(t, vecReps, "xr"), n, dist, "x")
			o.X = &v
		case "AppendVector":
			m := pick(t, 8, "m")
			if o.Self {
				m = n
			}
			v := genVec(t, genRep(t, vecReps, "xr"), m, dist, "x")
			o.X = &v
			if o.Keep {
				n += m
			}
		case "Append":
			if o.Keep {
				n++
			}
		case "SetSubVector", "SetSubVectorWithSlice":
			v := genVec(t, genRep(t, vecReps, "xr"), o.N, dist, "x")
			o.X = &v
			if pct(t, 25, "view") {
				o.View = 1 + pick(t, n-o.N+1, "from")
			}
		case "SubVector":
			if o.I > 0 && pct(t, 10, "none") {
				o.N = 0 // no entries, from a valid place
			}
			if o.Keep {
				n = o.N
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func mapF(x float64) float64 { return x*3 - 1 }

func checkVHist(c VHistCase, o *Obs) error {
	d := c.V.vals()
	var v lin.RealVector
	switch c.Ctr {
	case "slice":
		v = must(lin.NewArrayRealVectorFromSlice(d))
	case "copy":
		v = must(lin.NewArrayRealVector(d, true))
	case "ref":
		v = must(lin.NewArrayRealVector(append([]float64{}, d...), false))
	case "vector":
		v = must(lin.NewArrayRealVectorCopy(buildVec(c.V.Rep, d)))
	case "real":
		v = must(lin.NewRealVector(d))
	case "preset":
		x := 2.5
		if len(d) > 0 {
			x = d[0]
		}
		for i := range d {
			d[i] = x
		}
		v = must(lin.NewSizedArrayRealVectorWithPreset(len(d), x))
	case "sized":
		v = must(lin.NewSizedArrayRealVector(len(d)))
		for i := range d {
			d[i] = 0
		}
	case "two":
		v = must(lin.NewArrayRealVectorFromTwoRealVector(buildVec(c.V.Rep, d), buildVec("custom", d)))
		d = append(append([]float64{}, d...), d...)
	case "twoArray":
		a := must(lin.NewArrayRealVector(d, true))
		v = must(lin.NewArrayRealVectorFromTwoArrayRealVector(a, a))
		d = append(append([]float64{}, d...), d...)
	}
	o.Label("ctor:" + c.Ctr)
	if c.V.Rep == "custom" {
		v = customVector{v}
	}
	if err := matchVec("constructor "+c.Ctr, v, d); err != nil {
		return err
	}
	if c.Ctr == "two" || c.Ctr == "twoArray" {
		// the steps were generated for the original length
		v, d = v.Copy(), d
		if len(d) > 0 {
			v, d = v.SubVector(0, len(d)/2), d[:len(d)/2:len(d)/2]
		}
		if err := matchVec("first half", v, d); err != nil {
			return err
		}
	}
	o.NonTrivial(len(d) > 0 && len(c.Ops) > 1)
	for k, op := range c.Ops {
		w := fmt.Sprintf("step %d (%s) on length %d", k, op.K, len(d))
		o.Label("op:" + op.K)
		var x lin.RealVector
		var dx, view []float64
		if op.X != nil {
			if op.Self && op.X.N == len(d) {
				x, dx = v, append([]float64{}, d...)
			} else {
				x, dx = op.X.build()
			}
			if av, ok := v.(*lin.ArrayRealVector); ok && op.View > 0 && op.View-1+op.N <= len(d) {
				// moved within the vector, as copy does
				part := av.DataRef()[op.View-1 : op.View-1+op.N]
				y, err := lin.NewArrayRealVector(part, false)
				if err != nil {
					return fmt.Errorf("%s: view of the vector: %v", w, err)
				}
				x, view, dx = y, part, append([]float64{}, part...)
				o.LabelIf(op.View-1 != op.I, "overlapping view")
			}
			o.LabelIf(view == nil && op.X.Rep == "custom", "foreign-argument")
		}
		a, b := float64(op.A), float64(op.B)
		zip := func(f func(p, q float64) float64) []float64 {
			out := make([]float64, len(d))
			for i := range d {
				out[i] = f(d[i], dx[i])
			}
			return out
		}
		var res lin.RealVector
		var dres []float64
		switch op.K {
		case "At":
			if g := v.At(op.I); !same(g, d[op.I]) {
				return fmt.Errorf("%s: At(%d) = %v, want %v", w, op.I, g, d[op.I])
			}
		case "SetEntry":
			v.SetEntry(op.I, a)
			d[op.I] = a
		case "AddToEntry":
			v.AddToEntry(op.I, a)
			d[op.I] += a
		case "Set":
			v.Set(a)
			for i := range d {
				d[i] = a
			}
		case "MapAdd":
			v.MapAdd(a)
			for i := range d {
				d[i] += a
			}
		case "MapSubtract":
			v.MapSubtract(a)
			for i := range d {
				d[i] -= a
			}
		case "MapMultiply":
			v.MapMultiply(a)
			for i := range d {
				d[i] *= a
			}
		case "MapDivide":
			v.MapDivide(a)
			for i := range d {
				d[i] /= a
			}
		case "Map":
			v.Map(mapF)
			for i := range d {
				d[i] = mapF(d[i])
			}
		case "WalkUpdate":
			r := &vrecorder{f: func(i int, x float64) float64 { return x + a }}
			v.WalkInUpdateDefaultOrderBounded(vchanging{r}, op.I, op.I+op.N-1)
			for i := op.I; i < op.I+op.N; i++ {
				d[i] += a
			}
		case "Combine":
			v.Combine(a, b, x)
			if op.Self && op.X.N == len(d) {
				// x is v: entry by entry the argument is still the old value
			}
			for i := range d {
				want := a*d[i] + b*dx[i]
				got := v.At(i)
				if !same(got, want) {
					// allow a fused or reordered evaluation
					if !(math.Abs(got-want) <= 4*eps*(math.Abs(a*d[i])+math.Abs(b*dx[i]))) {
						return fmt.Errorf("%s: element %d is %v, want %v", w, i, got, want)
					}
				}
				d[i] = got
			}
		case "CopyFrom":
			v.CopyFrom(x)
			copy(d, dx)
		case "SetSubVector":
			v.SetSubVector(op.I, x)
			copy(d[op.I:], dx)
		case "SetSubVectorWithSlice":
			av, ok := v.(*lin.ArrayRealVector)
			if !ok {
				continue
			}
			if view != nil {
				av.SetSubVectorWithSlice(op.I, view)
			} else {
				av.SetSubVectorWithSlice(op.I, dx)
			}
			copy(d[op.I:], dx)
		case "DataRef":
			av, ok := v.(*lin.ArrayRealVector)
			if !ok {
				continue
			}
			if err := matchSlice(w, av.DataRef(), d); err != nil {
				return err
			}
		case "Add":
			res, dres = v.Add(x), zip(func(p, q float64) float64 { return p + q })
		case "Subtract":
			res, dres = v.Subtract(x), zip(func(p, q float64) float64 { return p - q })
		case "EBEMultiply":
			res, dres = v.EBEMultiply(x), zip(func(p, q float64) float64 { return p * q })
		case "EBEDivide":
			res, dres = v.EBEDivide(x), zip(func(p, q float64) float64 { return p / q })
		case "AppendVector":
			res, dres = v.AppendVector(x), append(append([]float64{}, d...), dx...)
		case "Append":
			res, dres = v.Append(a), append(append([]float64{}, d...), a)
		case "SubVector":
			res, dres = v.SubVector(op.I, op.N), append([]float64{}, d[op.I:op.I+op.N]...)
		case "Copy":
			res, dres = v.Copy(), append([]float64{}, d...)
		case "ToArray":
			if err := matchSlice(w, v.ToArray(), d); err != nil {
				return err
			}
		case "Iterator":
			// three at once, each at its own place
			var its [3]lin.EntryIterator
			next := func(k, i int) error {
				if i == 0 {
					its[k] = v.Iterator()
				}
				if !its[k].HasNext() {
					return fmt.Errorf("%s: the iterator ends after %d entries", w, i)
				}
				its[k].HasNext() // asking again must not advance
				e := its[k].Next()
				if e.Index() != i || !same(e.Value(), d[i]) {
					return fmt.Errorf("%s: entry %d is (%d, %v), want %v", w, i, e.Index(), e.Value(), d[i])
				}
				return nil
			}
			behind := 1 + maxi(op.I, 0)%3
			for i := 0; i < len(d)+2*behind; i++ {
				for k := range its {
					if j := i - k*behind; j >= 0 && j < len(d) {
						if err := next(k, j); err != nil {
							return err
						}
					}
				}
			}
			for k := range its {
				if its[k] != nil && its[k].HasNext() {
					return fmt.Errorf("%s: the iterator goes on after %d entries", w, len(d))
				}
			}
			if it := v.Iterator(); it.HasNext() != (len(d) > 0) {
				return fmt.Errorf("%s: a new iterator of %d entries has a next one: %v", w, len(d), it.HasNext())
			}
		case "IsNaN", "IsInf":
			nan, inf := false, false
			for _, y := range d {
				nan = nan || math.IsNaN(y)
				inf = inf || math.IsInf(y, 0)
			}
			if v.IsNaN() != nan || v.IsInf() != (inf && !nan) {
				return fmt.Errorf("%s: IsNaN %v IsInf %v of %v", w, v.IsNaN(), v.IsInf(), d)
			}
		case "Dimension":
			if v.Dimension() != len(d) {
				return fmt.Errorf("%s: dimension %d", w, v.Dimension())
			}
		default:
			hbug("vop %q", op.K)
		}
		if res != nil {
			if err := matchVec(w+" result", res, dres); err != nil {
				return err
			}
			if x != nil {
				if err := matchVec(w+" argument", x, dx); err != nil {
					return err
				}
			}
			if op.Keep && (op.K == "AppendVector" || op.K == "Append" || op.K == "SubVector" || len(dres) == len(d)) {
				if err := matchVec(w+" instance", v, d); err != nil {
					return err
				}
				v, d = res, dres
			}
		}
		if err := matchVec("after "+w, v, d); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	Register("C08", "history", "histories of 28 vector operations on built-in and foreign vectors of any length (0 included) from every constructor, with built-in, foreign and self arguments and values including NaN, infinities and signed zero; compared with a plain slice after every step; non-trivial: not empty and more than one step",
		60000, 1000000, genVHist, checkVHist)
}
