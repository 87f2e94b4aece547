package main

import (
	"math"

	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

type solidCase = core.Scene

func gridOf(c solidCase) *binvox.BinVOX {
	return binvox.New(c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], c.T[2], c.Scale(), false)
}

func genSolidCase(t *rapid.T, lo, hi float64) solidCase {
	var c solidCase
	for i := range c.N {
		c.N[i] = rapid.IntRange(1, 24).Draw(t, "n")
		c.T[i] = core.GenModerate(t, "t")
	}
	c.MMPV = rapid.SampledFrom([]float64{1, 0.5, 0.25, 0.1, 1.0 / 3, 2}).Draw(t, "mmpv")
	c.Solids = core.GenSolids(t, c.N, lo, hi, rapid.Bool().Draw(t, "overlap"))
	return c
}

// Tolerances in voxels: a cell whose centre is further outside than tolOut must
// be empty; one whose centre is further inside than tolIn must be filled.
const (
	tolOut = 1.5
	tolIn  = 1e-6
)

// checkSolid compares cells with the exact slices just above and just below
// each slicing plane.
func checkSolid(c solidCase, cells map[core.P]bool) error {
	for p := range cells {
		for i := range p {
			if p[i] < 0 || p[i] >= c.N[i] {
				return core.Failf("cell %v is outside the grid %v", p, c.N)
			}
		}
	}
	vox := core.SceneTris(c.Solids)
	for z := 0; z < c.N[2]; z++ {
		pz := float64(z) + 0.5
		a, b := core.SliceAt(vox, pz-1e-6), core.SliceAt(vox, pz+1e-6)
		for x := 0; x < c.N[0]; x++ {
			for y := 0; y < c.N[1]; y++ {
				px, py := float64(x)+0.5, float64(y)+0.5
				da, db := a.Dist(px, py), b.Dist(px, py)
				p := core.P{x, y, z}
				if cells[p] {
					if da > tolOut && db > tolOut && a.Winding(px, py) == 0 && b.Winding(px, py) == 0 {
						return core.Failf("cell %v is filled although its centre is %.2f voxels outside the solid", p, math.Min(da, db))
					}
				} else if da > 1e-4 && db > 1e-4 && a.Winding(px, py) > 0 && b.Winding(px, py) > 0 {
					return core.Failf("cell %v is empty although its centre is %.2f voxels inside the solid", p, math.Min(da, db))
				}
			}
		}
		// Every piece of the outline (of both slices) is marked within a voxel.
		for i, s := range [2]*core.Slice{a, b} {
			other := [2]*core.Slice{b, a}[i]
			for _, g := range s.Segs() {
				lo, hi, ok := inWindow(g, float64(c.N[0]), float64(c.N[1]))
				if !ok {
					continue
				}
				n := 2 + int(2*(hi-lo)*math.Hypot(g[2]-g[0], g[3]-g[1]))
				for i := 0; i <= n; i++ {
					f := lo + (hi-lo)*float64(i)/float64(n)
					px, py := g[0]+f*(g[2]-g[0]), g[1]+f*(g[3]-g[1])
					x, y := int(math.Floor(px)), int(math.Floor(py))
					if x < 1 || y < 1 || x >= c.N[0]-1 || y >= c.N[1]-1 {
						continue
					}
					if other.Dist(px, py) > 0.01 { // the plane all but contains a face or touches a vertex
						continue
					}
					found := false
					for dx := -1; dx <= 1; dx++ {
						for dy := -1; dy <= 1; dy++ {
							found = found || cells[core.P{x + dx, y + dy, z}]
						}
					}
					if !found {
						return core.Failf("the surface passes through (%.3f %.3f) in layer %d, but no cell within a voxel of cell [%d %d %d] is filled", px, py, z, x, y, z)
					}
				}
			}
		}
	}
	return nil
}

// inWindow is the range of a segment's parameter in [0,1] within a window of w by h.
func inWindow(g [4]float64, w, h float64) (lo, hi float64, ok bool) {
	lo, hi = 0, 1
	for i, n := range [2]float64{w, h} {
		a, d := g[i], g[i+2]-g[i]
		if d == 0 {
			if a < 0 || a > n {
				return 0, 0, false
			}
			continue
		}
		f, t := (0-a)/d, (n-a)/d
		if f > t {
			f, t = t, f
		}
		lo, hi = math.Max(lo, f), math.Min(hi, t)
	}
	return lo, hi, lo <= hi
}

// genZoom draws a grid that shows a small part of the surface of large solids.
func genZoom(t *rapid.T) solidCase {
	c := genSolidCase(t, 4, 20)
	c.Solids = core.GenZoom(t, c.N)
	return c
}

// genMany draws many small solids, or many copies of one.
func genMany(t *rapid.T) solidCase {
	c := genSolidCase(t, 4, 12)
	copies := rapid.SampledFrom([]int{2, 3, 4, 8, 16, 100, 127, 128, 129, 255, 256, 257, 300}).Draw(t, "copies")
	if rapid.Bool().Draw(t, "same") {
		s := c.Solids[0]
		for s.Kind == "sphere" || s.Kind == "torus" {
			s.Kind, s.N = "box", 0
		}
		for len(c.Solids) < copies {
			c.Solids = append(c.Solids, s)
		}
		return c
	}
	for len(c.Solids) < copies/4 {
		s := core.GenSolid(t, 0.5, 6)
		for i := range s.Pos {
			s.Pos[i] = rapid.Float64Range(-2, float64(c.N[i])+2).Draw(t, "pos")
		}
		c.Solids = append(c.Solids, s)
	}
	return c
}

func c06() *core.Prop {
	run := func(x *core.Ctx, c solidCase) error {
		if (c.N[0]+int(2*c.Solids[0].Size[0]))%2 == 0 && c.N[2] < 40 { // the same mesh elsewhere, in the same grid: it must not matter
			o := c
			o.Solids = append([]core.Solid(nil), c.Solids...)
			for i := range o.Solids {
				o.Solids[i].Pos[0] += 2.21
				o.Solids[i].Pos[2] += 0.37
			}
			if err := gridOf(o).Voxelize(core.GLMesh(o.World())); err != nil {
				return core.Failf("Voxelize: %v", err)
			}
		}
		b := gridOf(c)
		if err := b.Voxelize(core.GLMesh(c.World())); err != nil {
			return core.Failf("Voxelize: %v", err)
		}
		if len(b.WhiteVoxels) > 1 && len(b.WhiteVoxels) < c.N[0]*c.N[1]*c.N[2] {
			x.NonTrivial()
		}
		for _, s := range c.Solids {
			x.Label("%s", s.Kind)
		}
		if got := [3]int{b.NX, b.NY, b.NZ}; got != c.N || !core.SameFloat(b.TX, c.T[0]) || !core.SameFloat(b.TY, c.T[1]) || !core.SameFloat(b.TZ, c.T[2]) {
			return core.Failf("voxelizing changed the grid to %v", b)
		}
		return checkSolid(c, cellsOf(b))
	}
	thick := core.NewArm("solids", 3000, 60000, func(t *rapid.T) solidCase { return genSolidCase(t, 4, 20) }, run)
	thin := core.NewArm("thin", 3000, 60000, func(t *rapid.T) solidCase {
		c := genSolidCase(t, 0.5, 16)
		for i := range c.Solids {
			if rapid.Bool().Draw(t, "plate") {
				c.Solids[i].Size[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.SampledFrom([]float64{0.05, 0.25, 0.5, 1, 1.5}).Draw(t, "thickness")
			}
		}
		return c
	}, run)
	// Boxes of every small lattice placement: faces on, above and below slicing planes.
	boxes := core.NewArm("placements", 300, 3000, func(t *rapid.T) solidCase {
		c := solidCase{N: [3]int{9, 9, 9}, MMPV: 1}
		s := core.Solid{Kind: rapid.SampledFrom([]string{"box", "octa", "tetra", "prism", "cubes"}).Draw(t, "kind")}
		if s.Kind == "prism" {
			s.Poly = [][2]float64{{0.5, 0}, {0, 0.5}, {-0.5, 0}, {0.25, -0.5}}
		}
		if s.Kind == "cubes" {
			s.Bits = rapid.IntRange(1, 1<<27-1).Draw(t, "bits")
		}
		for i := range s.Size {
			s.Size[i] = float64(rapid.IntRange(1, 14).Draw(t, "size")) / 2
			s.Pos[i] = 4.5 + float64(rapid.IntRange(-8, 8).Draw(t, "pos"))/4
			s.Rot[i] = float64(90 * rapid.IntRange(0, 3).Draw(t, "rot"))
		}
		c.Solids = []core.Solid{s}
		return c
	}, run)
	large := core.NewArm("large", 100, 2000, func(t *rapid.T) solidCase {
		c := genSolidCase(t, 4, 20)
		for i := range c.N {
			c.N[i] = rapid.IntRange(1, 70).Draw(t, "n")
		}
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			c.N[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.SampledFrom([]int{127, 128, 129, 255, 256, 257, 300}).Draw(t, "n")
			c.N[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.IntRange(1, 10).Draw(t, "n")
		}
		c.Solids = core.GenSolids(t, c.N, 4, 80, rapid.Bool().Draw(t, "overlap"))
		return c
	}, run)
	// Very long grids, and meshes of very many triangles.
	core.Fixed(large, func(thorough bool) (out []solidCase) {
		tall, n := 5000, 106
		if thorough {
			tall, n = 70000, 300
		}
		for ax := 0; ax < 3; ax++ {
			c := solidCase{N: [3]int{5, 5, 5}, T: [3]float64{1, -2, 3}, MMPV: 0.5}
			c.N[ax] = tall
			s := core.Solid{Kind: "prism", Poly: [][2]float64{{0.5, 0}, {0, 0.5}, {-0.5, 0}, {0.25, -0.5}}, Size: [3]float64{4, 4, 4}, Pos: [3]float64{2.4, 2.6, 2.5}}
			s.Size[ax], s.Pos[ax] = float64(tall)-7.3, float64(tall)/2+2.1
			if ax < 2 { // a prism is along z
				s.Kind, s.Poly = "octa", nil
			}
			end := core.Solid{Kind: "box", Size: [3]float64{3, 2, 3}, Pos: [3]float64{2.5, 2.25, 2.75}}
			end.Pos[ax] = float64(tall) - 5
			c.Solids = []core.Solid{s, end}
			out = append(out, c)
			c = solidCase{N: [3]int{12, 11, 10}, T: [3]float64{1, -2, 3}, MMPV: 0.5}
			s = core.Solid{Kind: "fine", N: n, Size: [3]float64{7, 6, 5}, Pos: [3]float64{6.1, 5.2, 5.3}}
			s.Rot[ax] = 33
			c.Solids = []core.Solid{{Kind: "box", Size: [3]float64{2, 2, 2}, Pos: [3]float64{2, 2, 2}}, s, {Kind: "box", Size: [3]float64{3, 2, 3}, Pos: [3]float64{10, 9.25, 7.75}}}
			out = append(out, c)
		}
		return out
	})
	zoom := core.NewArm("zoom", 400, 8000, genZoom, run)
	many := core.NewArm("many", 300, 6000, genMany, run)
	return &core.Prop{
		ID:   "C06",
		Rule: "scenes of one to three closed solids, overlapping or not, (boxes, prisms with star-shaped outlines, unions of cubes, spheres, tori, octahedra, tetrahedra) in voxel units, at lattice-aligned or arbitrary positions, sizes and rotations, placed in the world by a random translation and voxel size; grids of up to 24 cells per axis that may cover the scene partly; up to 300 copies of one solid or 75 small solids; solids of up to 300000 voxels of which the grid shows a part of the surface; grids of up to 70 cells per axis, or 300 along one (fixed: 5000, thorough 70000), fixed meshes of 135000 (thorough: a million) triangles; the oracle is the exact slice polygon just above and just below each slicing plane; non-trivial: at least two cells and not the whole grid are filled",
		Arms: []*core.Arm{thick, thin, boxes, large, zoom, many},
		Assumptions: []string{
			"cells whose centre is within 0.0001 voxels of the outline may be filled or empty, and a layer whose plane contains a face may follow the slice above or the one below",
			"a cell outside the solid may be filled when its centre is within 1.5 voxels of the outline in the slicing plane (line rasterization between whole cells)",
		},
	}
}
