package main

import (
	"math"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// ---------------------------------------------------------------- C26

type geom struct {
	N     [3]int       `json:"n"`
	T     [3]float64   `json:"t"`
	Scale float64      `json:"scale"`
	Color bool         `json:"color"`
	Adds  []core.P     `json:"adds"`
	Cols  [][4]float64 `json:"cols,omitempty"`
	Asks  []core.P     `json:"asks"`
	Then  *extent      `json:"then,omitempty"` // the same objects get this extent later
}

// extent is the part of a model the queries depend on.
type extent struct {
	N     [3]int     `json:"n"`
	T     [3]float64 `json:"t"`
	Scale float64    `json:"scale"`
}

func genExtent(t *rapid.T) extent {
	var c extent
	for i := range c.N {
		if rapid.IntRange(0, 3).Draw(t, "nk") == 0 {
			c.N[i] = rapid.IntRange(1, 100000).Draw(t, "n")
		} else {
			c.N[i] = rapid.IntRange(1, 9).Draw(t, "n")
		}
		c.T[i] = core.GenModerate(t, "t")
	}
	switch rapid.IntRange(0, 5).Draw(t, "sk") {
	case 0:
		c.Scale = 0
	case 1:
		c.Scale = -rapid.Float64Range(1e-3, 1000).Draw(t, "scale")
	default:
		c.Scale = rapid.Float64Range(1e-3, 1000).Draw(t, "scale")
	}
	return c
}

func c26() *core.Prop {
	gen := func(t *rapid.T) geom {
		c := geom{Color: rapid.Bool().Draw(t, "color")}
		e := genExtent(t)
		c.N, c.T, c.Scale = e.N, e.T, e.Scale
		if rapid.Bool().Draw(t, "again") {
			e := genExtent(t)
			c.Then = &e
		}
		c.Adds = core.GenCells(t, c.N, 14)
		if c.Color {
			for range c.Adds {
				var q [4]float64
				for i := range q {
					q[i] = rapid.SampledFrom([]float64{0, 0, 1, 1, 0.5, 0.25}).Draw(t, "col")
				}
				c.Cols = append(c.Cols, q)
			}
		}
		for i := rapid.IntRange(0, 8).Draw(t, "asks"); i > 0; i-- {
			var q core.P
			for k := range q {
				q[k] = rapid.IntRange(-2, c.N[k]+2).Draw(t, "ask")
			}
			if len(c.Adds) > 0 && rapid.Bool().Draw(t, "near") { // beside or mirrored from an added cell
				a := c.Adds[rapid.IntRange(0, len(c.Adds)-1).Draw(t, "which")]
				switch rapid.IntRange(0, 2).Draw(t, "how") {
				case 0:
					q = core.P{a[1], a[0], a[2]}
				case 1:
					q = core.P{a[2], a[1], a[0]}
				default:
					q = a
					q[rapid.IntRange(0, 2).Draw(t, "ax")] += rapid.SampledFrom([]int{-1, 1}).Draw(t, "d")
				}
			}
			c.Asks = append(c.Asks, q)
		}
		return c
	}
	run := func(x *core.Ctx, c geom) error {
		bv := binvox.New(c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], c.T[2], c.Scale, c.Color)
		want := map[core.P]binvox.Color{}
		for i, p := range c.Adds {
			if c.Color {
				q := c.Cols[i]
				want[p] = binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]}
				bv.AddColor(p[0], p[1], p[2], want[p])
			} else {
				want[p] = binvox.Color{R: 1, G: 1, B: 1, A: 1}
				bv.Add(p[0], p[1], p[2])
			}
		}
		for _, p := range append(append([]core.P{}, c.Adds...), c.Asks...) {
			col, ok := bv.Get(p[0], p[1], p[2])
			w, has := want[p]
			if ok != has {
				return core.Failf("Get%v reports present=%v, want %v (added: %v)", p, ok, has, c.Adds)
			}
			if has && col != w {
				return core.Failf("Get%v = %v, want %v", p, col, w)
			}
		}
		vs := &vshell.VShell{NX: c.N[0], NY: c.N[1], NZ: c.N[2], TX: c.T[0], TY: c.T[1], TZ: c.T[2], Scale: c.Scale}
		check := func(what string, c extent, gotDim int, gotV float64, box *gl.Box) error {
			dim := max(c.N[0], c.N[1], c.N[2])
			vpmm := 1.0
			if c.Scale > 0 {
				vpmm = float64(dim) / c.Scale
			}
			if gotDim != dim {
				return core.Failf("%s of %v: largest dimension %d, want %d", what, c.N, gotDim, dim)
			}
			if math.Abs(gotV-vpmm) > 1e-9*vpmm {
				return core.Failf("%s of %v, scale %v: %v voxels per mm, want %v", what, c.N, c.Scale, gotV, vpmm)
			}
			if box == nil {
				return core.Failf("%s: no bounding box", what)
			}
			lo, hi := [3]float64{box.Min.X, box.Min.Y, box.Min.Z}, [3]float64{box.Max.X, box.Max.Y, box.Max.Z}
			for i := range lo {
				size := float64(c.N[i]) / vpmm
				if !core.Near(lo[i], c.T[i], 0) || !core.Near(hi[i], c.T[i]+size, size) {
					return core.Failf("%s of %v at %v, scale %v: bounding box axis %d is [%v,%v], want [%v,%v]", what, c.N, c.T, c.Scale, i, lo[i], hi[i], c.T[i], c.T[i]+size)
				}
			}
			return nil
		}
		e := extent{c.N, c.T, c.Scale}
		if err := check("voxel model", e, bv.Dim(), bv.VoxelsPerMM(), bv.MBB()); err != nil {
			return err
		}
		if err := check("shell", e, vs.Dim(), vs.VoxelsPerMM(), vs.MBB()); err != nil {
			return err
		}
		if e := c.Then; e != nil { // the answers follow the fields
			bv.NX, bv.NY, bv.NZ, bv.TX, bv.TY, bv.TZ, bv.Scale = e.N[0], e.N[1], e.N[2], e.T[0], e.T[1], e.T[2], e.Scale
			vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale = e.N[0], e.N[1], e.N[2], e.T[0], e.T[1], e.T[2], e.Scale
			if err := check("changed voxel model", *e, bv.Dim(), bv.VoxelsPerMM(), bv.MBB()); err != nil {
				return err
			}
			if err := check("changed shell", *e, vs.Dim(), vs.VoxelsPerMM(), vs.MBB()); err != nil {
				return err
			}
			x.Label("changed")
		}
		if bv.String() == "" || vs.String() == "" {
			return core.Failf("empty description")
		}
		if c.Scale > 0 {
			x.Label("scaled")
		}
		if (c.N[0] != c.N[1] || c.N[1] != c.N[2]) && len(c.Adds) > 0 {
			x.NonTrivial()
		}
		return nil
	}
	return &core.Prop{
		ID:          "C26",
		Rule:        "random dimensions up to 100000, translations, positive, zero and negative scales, white and coloured cells, and queries at, beside, mirrored from and away from the added cells; non-trivial: unequal dimensions and at least one cell",
		Assumptions: []string{"a model holds either white or coloured cells, as documented", "a cell added twice has the colour added last", "compared to 1e-9 relative"},
		Arms:        []*core.Arm{core.NewArm("geometry", 16000, 200000, gen, run)},
	}
}
