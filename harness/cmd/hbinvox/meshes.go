package main

import (
	"math"
	"os"
	"path/filepath"
	"slices"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// meshCase is a small model that is turned into a mesh.
type meshCase struct {
	Model core.Model `json:"model"`
	Color bool       `json:"color,omitempty"`
	More  []core.P   `json:"more,omitempty"` // added to the same model later
	Move  bool       `json:"move,omitempty"` // the same model is moved and rescaled later
	Old   int        `json:"old,omitempty"`  // bytes in the tool's output beforehand
}

func (c meshCase) binvox(g *core.Grid) *binvox.BinVOX {
	if !c.Color {
		return toBinvox(g)
	}
	b := binvox.New(g.N[0], g.N[1], g.N[2], g.T[0], g.T[1], g.T[2], g.Scale, true)
	for _, p := range g.Sorted() {
		q := core.Paint(p)
		b.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
	}
	return b
}

func genMeshCase(t *rapid.T, maxDim, maxCells int, dyadic bool) meshCase {
	c := meshCase{Model: core.Model{N: core.GenDims(t, maxDim, maxCells)}}
	total := c.Model.N[0] * c.Model.N[1] * c.Model.N[2]
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0:
		c.Model.Runs = core.GenRuns(t, total)
	default:
		c.Model.Runs = core.GenBits(t, total)
	}
	dim := 0
	for i := range c.Model.N {
		dim = max(dim, c.Model.N[i])
	}
	if dyadic { // coordinates that an STL file holds exactly
		for i := range c.Model.T {
			c.Model.T[i] = float64(rapid.IntRange(-800, 800).Draw(t, "t")) / 8
		}
		c.Model.Scale = float64(dim) * rapid.SampledFrom([]float64{0.125, 0.25, 0.5, 1, 2, 4}).Draw(t, "mmpv")
	} else {
		for i := range c.Model.T {
			c.Model.T[i] = core.GenModerate(t, "t")
		}
		c.Model.Scale = float64(dim) * rapid.Float64Range(0.05, 10).Draw(t, "mmpv")
	}
	return c
}

// pairCase is a block of 2x2x3 cells along an axis: two adjacent corner
// neighbourhoods.
type pairCase struct {
	Axis int `json:"axis"`
	Mask int `json:"mask"`
}

func (c pairCase) grid() *core.Grid {
	n := [3]int{4, 4, 4}
	n[c.Axis] = 5
	g := core.NewGrid(n, [3]float64{}, 5)
	u, v := (c.Axis+1)%3, (c.Axis+2)%3
	for i := 0; i < 12; i++ {
		if c.Mask>>i&1 == 1 {
			var p core.P
			p[c.Axis], p[u], p[v] = 1+i/4, 1+i&1, 1+i>>1&1
			g.Cells[p] = true
		}
	}
	return g
}

func allPairs(bool) []pairCase {
	var out []pairCase
	for a := 0; a < 3; a++ {
		for m := 0; m < 1<<12; m++ {
			out = append(out, pairCase{a, m})
		}
	}
	return out
}

// farCase is a model of a few blocks in a grid that may be huge.
type farCase struct {
	N        [3]int         `json:"n"`
	T        [3]float64     `json:"t"`
	MMPV     float64        `json:"mmpv"`
	Clusters []core.Cluster `json:"clusters"`
	Color    bool           `json:"color,omitempty"`
}

// generic offsets keep rays away from edges.
const gx, gy, gz = 0.0131, 0.0071, 0.0047

func checkManifold(vox []core.Tri, g *core.Grid, tol float64) error {
	if err := core.ClosedMesh(vox, 2, tol); err != nil {
		return err
	}
	r := core.NewRays(vox)
	// Octant centres and points near the octants' outer corners.
	for x := -1; x <= g.N[0]; x++ {
		for y := -1; y <= g.N[1]; y++ {
			for o := 0; o < 8; o++ {
				d := 0.25
				if o >= 4 {
					d = 0.45
				}
				sx, sy := float64(o&1*2-1), float64(o>>1&1*2-1)
				px, py := float64(x)+0.5+sx*d+gx, float64(y)+0.5+sy*d+gy
				var zs []float64
				for z := -1; z <= g.N[2]; z++ {
					zs = append(zs, float64(z)+0.5-d+gz, float64(z)+0.5+d+gz)
				}
				w := r.Winding(px, py, zs...)
				for i, n := range w {
					z := i/2 - 1
					sz := i%2*2 - 1
					c := core.P{x, y, z}
					if g.Cells[c] {
						if n != 1 {
							return core.Failf("the surface does not enclose cell %v: winding number %d at (%.3f %.3f %.3f) voxels", c, n, px, py, zs[i])
						}
						continue
					}
					near := false
					for k := 0; k < 8; k++ {
						q := core.P{x + int(sx)*(k&1), y + int(sy)*(k>>1&1), z + sz*(k>>2&1)}
						near = near || g.Cells[q]
					}
					if !near && n != 0 {
						return core.Failf("the surface reaches more than half a voxel beyond the cells: winding number %d at (%.3f %.3f %.3f) voxels, next to no cell", n, px, py, zs[i])
					}
					if n != 0 && n != 1 {
						return core.Failf("winding number %d at (%.3f %.3f %.3f) voxels", n, px, py, zs[i])
					}
				}
			}
		}
	}
	return nil
}

func checkCubes(vox []core.Tri, g *core.Grid, tol float64) error {
	if err := core.ClosedMesh(vox, 2, tol); err != nil {
		return err
	}
	r := core.NewRays(vox)
	for x := -1; x <= g.N[0]; x++ {
		for y := -1; y <= g.N[1]; y++ {
			var zs []float64
			for z := -1; z <= g.N[2]; z++ {
				zs = append(zs, float64(z)+0.5+gz)
			}
			for i, n := range r.Winding(float64(x)+0.5+gx, float64(y)+0.5+gy, zs...) {
				c := core.P{x, y, i - 1}
				want := 0
				if g.Cells[c] {
					want = 1
				}
				if n != want {
					return core.Failf("winding number %d at the centre of cell %v, want %d", n, c, want)
				}
			}
		}
	}
	return nil
}

func latticeTol(g *core.Grid, dyadic bool) float64 {
	if dyadic {
		return 1e-6
	}
	return 1e-6
}

func meshProp(id, rule, tool string, sub int, mesh func(b *binvox.BinVOX) *gl.Mesh, check func(vox []core.Tri, g *core.Grid, tol float64) error) *core.Prop {
	run := func(x *core.Ctx, c meshCase) error {
		g := c.Model.Grid()
		b := c.binvox(g)
		m := mesh(b)
		tris := core.MeshTris(m)
		if d := core.DiffCells(g.Cells, cellsOf(b)); d != "" {
			return core.Failf("making the mesh changed the model: %s", d)
		}
		if err := check(core.ToVoxels(tris, g.T, g.MMPV()), g, latticeTol(g, false)); err != nil {
			return err
		}
		if len(g.Cells) > 1 {
			x.NonTrivial()
		}
		if c.Color {
			x.Label("colour")
		}
		if len(c.More) == 0 && !c.Move {
			return nil
		}
		// Later meshes of the same model are those of what it has become.
		x.Label("changed")
		for _, p := range c.More {
			g.Cells[p] = true
			if q := core.Paint(p); c.Color {
				b.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
			} else {
				b.Add(p[0], p[1], p[2])
			}
		}
		if c.Move {
			g.T[0], g.T[1], g.T[2], g.Scale = g.T[1]+0.5, g.T[2]-1, g.T[0]*0.5, g.Scale*1.25
			b.TX, b.TY, b.TZ, b.Scale = g.T[0], g.T[1], g.T[2], g.Scale
		}
		if err := check(core.ToVoxels(core.MeshTris(mesh(b)), g.T, g.MMPV()), g, latticeTol(g, false)); err != nil {
			return core.Failf("mesh after the model changed: %v", err)
		}
		if !slices.Equal(tris, core.MeshTris(m)) {
			return core.Failf("making another mesh changed the first one")
		}
		return nil
	}
	runTool := func(x *core.Ctx, c meshCase) error {
		g := c.Model.Grid()
		if len(g.Cells) == 0 {
			x.Label("empty")
			return nil
		}
		writeFile(x, "m.binvox", core.EncodeBinvox(g, nil))
		out := filepath.Join(x.Dir(), "m.stl")
		core.WriteOld(out, c.Old)
		args := []string{"m.binvox", "m.stl"}
		if tool == "voxcut" {
			args = []string{"-ostl", "m.stl", "m.binvox"}
		}
		r := x.Tool(core.ToolOpt{}, tool, args...)
		if r.Code != 0 {
			return core.Failf("%s %v: exit %d: %s", tool, args, r.Code, core.Tail(r.Stderr))
		}
		raw, err := os.ReadFile(out)
		if err != nil {
			return core.Failf("%s wrote no file", tool)
		}
		tris, err := core.DecodeSTL(raw)
		if err != nil {
			return core.Failf("%s wrote a bad STL: %v", tool, err)
		}
		if err := check(core.ToVoxels(tris, g.T, g.MMPV()), g, 1e-3); err != nil {
			return core.Failf("%s: %v", tool, err)
		}
		if len(g.Cells) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	arms := []*core.Arm{
		core.NewArm("random", 4000, 60000, func(t *rapid.T) meshCase {
			c := genMeshCase(t, 7, 120, false)
			c.Color = rapid.IntRange(0, 4).Draw(t, "colour") == 0
			if rapid.IntRange(0, 2).Draw(t, "again") == 0 {
				c.More = core.GenCells(t, c.Model.N, 4)
				c.Move = rapid.Bool().Draw(t, "move")
			}
			return c
		}, run),
		core.NewArm("tool", 250, 2500, func(t *rapid.T) meshCase {
			c := genMeshCase(t, 6, 60, true)
			c.Old = core.GenOld(t)
			return c
		}, runTool),
	}
	pairs := core.NewArm("pairs", 10, 10, func(t *rapid.T) pairCase {
		return pairCase{rapid.IntRange(0, 2).Draw(t, "axis"), rapid.IntRange(0, 4095).Draw(t, "mask")}
	}, func(x *core.Ctx, c pairCase) error {
		g := c.grid()
		if err := check(core.ToVoxels(core.MeshTris(mesh(toBinvox(g))), g.T, g.MMPV()), g, 1e-6); err != nil {
			return err
		}
		if len(g.Cells) > 1 {
			x.NonTrivial()
		}
		return nil
	})
	core.Fixed(pairs, allPairs)
	many := func(bool) (out []meshCase) {
		for _, m := range core.Crowded() {
			out = append(out, meshCase{Model: m})
		}
		return out
	}
	arms = append(arms, core.Fixed(core.NewArm("many", 0, 0, nil, run), many),
		core.Fixed(core.NewArm("manytool", 0, 0, nil, runTool), many))
	arms = append(arms, pairs,
		core.NewArm("far", 950, 12000, func(t *rapid.T) farCase {
			var c farCase
			c.N, c.Clusters = core.GenClusters(t, id == "C08") // the mesh library takes memory for the plane between two faces in it
			for i := range c.T {
				c.T[i] = float64(rapid.IntRange(-800, 800).Draw(t, "t")) / 8
			}
			c.MMPV = rapid.SampledFrom([]float64{0.125, 0.25, 0.5, 1, 2}).Draw(t, "mmpv")
			c.Color = rapid.IntRange(0, 3).Draw(t, "colour") == 0
			return c
		}, func(x *core.Ctx, c farCase) error {
			b := binvox.New(c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], c.T[2], c.MMPV*float64(max(c.N[0], c.N[1], c.N[2])), c.Color)
			cells := 0
			for _, cl := range c.Clusters {
				for _, p := range cl.Grid().Sorted() {
					q := core.Paint(p)
					p = core.P{p[0] + cl.At[0], p[1] + cl.At[1], p[2] + cl.At[2]}
					if c.Color {
						b.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
					} else {
						b.Add(p[0], p[1], p[2])
					}
					cells++
				}
			}
			parts, err := core.SplitClusters(core.ToVoxels(core.MeshTris(mesh(b)), c.T, c.MMPV), c.Clusters)
			if err != nil {
				return err
			}
			for i, cl := range c.Clusters {
				if err := check(parts[i], cl.Grid(), 1e-5); err != nil {
					return core.Failf("cells from %v on: %v", cl.At, err)
				}
			}
			if cells > 1 && len(c.Clusters) > 1 {
				x.NonTrivial()
			}
			return nil
		}),
		core.NewArm("large", 64, 800, func(t *rapid.T) core.Large {
			return core.GenLarge(t, 28)
		}, func(x *core.Ctx, c core.Large) error {
			g := c.Grid()
			if err := check(core.ToVoxels(core.MeshTris(mesh(toBinvox(g))), g.T, g.MMPV()), g, 1e-5); err != nil {
				return err
			}
			x.Label("kind=%d", c.Kind)
			if len(g.Cells) > 1000 {
				x.NonTrivial()
			}
			return nil
		}))
	return &core.Prop{
		ID:    id,
		Rule:  rule,
		Tools: []string{"./cmd/" + tool},
		Arms:  arms,
		Assumptions: []string{
			"voxel sizes between 0.05 and 10 mm and translations within 100 mm, so that the surface's lattice is resolved by floating point",
			"the tool arm uses coordinates that STL's 32-bit floats hold exactly",
		},
	}
}

const meshRule = "random small grids (dense random bits or runs, white or coloured, any translation and voxel size), blocks of cells far apart in grids of up to 2^21 cells per axis, solids, sheets and dense bits of up to 28x28x28 cells, plates, blocks and scattered cells of up to 70000 cells; plus all 4096 occupancies of 2x2x3 blocks along each axis (every pair of adjacent corner neighbourhoods), plus the tool on models with STL-exact coordinates; non-trivial: at least two occupied cells"

func c08() *core.Prop {
	return meshProp("C08", meshRule, "voxcut", 1,
		func(b *binvox.BinVOX) *gl.Mesh { return b.ToMesh() },
		func(vox []core.Tri, g *core.Grid, tol float64) error { return core.Blocky(vox, g.Cells, tol) })
}

func c09() *core.Prop {
	return meshProp("C09", meshRule, "manifold-mesh", 2,
		func(b *binvox.BinVOX) *gl.Mesh { return b.ManifoldMesh() }, checkManifold)
}

func c10() *core.Prop {
	return meshProp("C10", meshRule, "marching-cubes", 2,
		func(b *binvox.BinVOX) *gl.Mesh { return b.MarchingCubes() }, checkCubes)
}

var _ = math.Abs
