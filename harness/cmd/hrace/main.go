// hrace holds the checks of voxelization under dicing and concurrency. It is
// built with the race detector.
package main

import (
	"math"
	"sync"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

func main() { core.Main(c07(), c32()) }

type diceCase struct {
	Scene core.Scene `json:"scene"`
	Cuts  [3][]int   `json:"cuts"` // where each axis is divided
	Snap  bool       `json:"snap"` // dyadic lattice and vertices: exact arithmetic
	Par   int        `json:"par,omitempty"`
	Move  [3]float64 `json:"move"` // the mesh is moved by so many voxels in the end
}

func (c diceCase) tris() []core.Tri {
	tris := c.Scene.World()
	if c.Snap {
		for i := range tris {
			for j := range tris[i] {
				for k := range tris[i][j] {
					tris[i][j][k] = math.Round(tris[i][j][k]*65536) / 65536
				}
			}
		}
	}
	return tris
}

// bv is the grid of a sub-box of the lattice.
func (c diceCase) bv(start, n [3]int, nudge [3]float64) *binvox.BinVOX {
	var t [3]float64
	for i := range t {
		t[i] = c.Scene.T[i] + (float64(start[i])+nudge[i])*c.Scene.MMPV
	}
	dim := max(n[0], n[1], n[2])
	return binvox.New(n[0], n[1], n[2], t[0], t[1], t[2], float64(dim)*c.Scene.MMPV, false)
}

func cells(b *binvox.BinVOX, off [3]int) map[core.P]bool {
	out := map[core.P]bool{}
	for k := range b.WhiteVoxels {
		out[core.P{k.X + off[0], k.Y + off[1], k.Z + off[2]}] = true
	}
	return out
}

func gen(t *rapid.T) diceCase { return genDice(t, 20) }

func genDice(t *rapid.T, size int) diceCase {
	var c diceCase
	c.Snap = rapid.Bool().Draw(t, "snap")
	for i := range c.Scene.N {
		c.Scene.N[i] = rapid.IntRange(1, size).Draw(t, "n")
		if c.Snap {
			c.Scene.T[i] = float64(rapid.IntRange(-400, 400).Draw(t, "t")) / 8
		} else {
			c.Scene.T[i] = core.GenModerate(t, "t")
		}
	}
	if c.Snap {
		c.Scene.MMPV = rapid.SampledFrom([]float64{1, 0.5, 0.25, 0.125, 2}).Draw(t, "mmpv")
	} else {
		c.Scene.MMPV = rapid.SampledFrom([]float64{1, 0.1, 1.0 / 3, 0.7, 2.5}).Draw(t, "mmpv")
	}
	lo := rapid.SampledFrom([]float64{0.5, 4}).Draw(t, "lo")
	c.Scene.Solids = core.GenSolids(t, c.Scene.N, lo, float64(size)-2, rapid.Bool().Draw(t, "overlap"))
	for i := range c.Cuts {
		for p := 1; p < c.Scene.N[i]; p++ {
			if rapid.IntRange(0, size/4).Draw(t, "cut") == 0 {
				c.Cuts[i] = append(c.Cuts[i], p)
			}
		}
	}
	c.Par = rapid.IntRange(0, 3).Draw(t, "par")
	for i := range c.Move {
		c.Move[i] = float64(rapid.IntRange(-4, 4).Draw(t, "move")) / rapid.SampledFrom([]float64{1, 2, 3}).Draw(t, "part")
	}
	return c
}

// unstable reports whether the cell changes under nudges of the lattice far
// below the size of a voxel: rounding decides it.
func (c diceCase) unstable(p core.P) bool {
	mesh := core.GLMesh(c.tris())
	const e = 1e-8
	var on, off bool
	for i := 0; i < 27; i++ {
		nz := float64(i/9-1) * e
		if c.Snap {
			nz = 0 // slicing planes are exact
		}
		b := c.bv([3]int{}, c.Scene.N, [3]float64{float64(i%3-1) * e, float64(i/3%3-1) * e, nz})
		if err := b.VoxelizeZ(mesh, p[2]); err != nil {
			return false
		}
		if _, ok := b.Get(p[0], p[1], p[2]); ok {
			on = true
		} else {
			off = true
		}
	}
	return on && off
}

func (c diceCase) same(what string, want, got map[core.P]bool, x *core.Ctx) error {
	for _, d := range [][2]map[core.P]bool{{want, got}, {got, want}} {
		for p := range d[0] {
			if d[1][p] {
				continue
			}
			if c.unstable(p) {
				x.Label("rounding")
				continue
			}
			return core.Failf("%s: %s (first: cell %v)", what, core.DiffCells(want, got), p)
		}
	}
	return nil
}

func bounded(what string, b *binvox.BinVOX) error {
	for k := range b.WhiteVoxels {
		if k.X < 0 || k.Y < 0 || k.Z < 0 || k.X >= b.NX || k.Y >= b.NY || k.Z >= b.NZ {
			return core.Failf("%s: cell %v is outside the grid %d x %d x %d", what, k, b.NX, b.NY, b.NZ)
		}
	}
	return nil
}

func parts(n int, cuts []int) (out [][2]int) {
	prev := 0
	for _, c := range append(append([]int{}, cuts...), n) {
		if c > prev && c <= n {
			out = append(out, [2]int{prev, c - prev})
			prev = c
		}
	}
	return out
}

func c07() *core.Prop {
	run := func(x *core.Ctx, c diceCase) error {
		mesh := core.GLMesh(c.tris())
		whole := c.bv([3]int{}, c.Scene.N, [3]float64{})
		if err := whole.Voxelize(mesh); err != nil {
			return core.Failf("Voxelize: %v", err)
		}
		if err := bounded("whole region", whole); err != nil {
			return err
		}
		want := cells(whole, [3]int{})
		type job struct {
			start, n [3]int
			layer    int // -1: all
			b        *binvox.BinVOX
			err      error
		}
		var jobs []*job
		for _, px := range parts(c.Scene.N[0], c.Cuts[0]) {
			for _, py := range parts(c.Scene.N[1], c.Cuts[1]) {
				for _, pz := range parts(c.Scene.N[2], c.Cuts[2]) {
					jobs = append(jobs, &job{start: [3]int{px[0], py[0], pz[0]}, n: [3]int{px[1], py[1], pz[1]}, layer: -1})
				}
			}
		}
		nparts := len(jobs)
		for z := 0; z < c.Scene.N[2]; z++ {
			jobs = append(jobs, &job{n: c.Scene.N, layer: z})
		}
		for i := 0; i < c.Par; i++ {
			jobs = append(jobs, &job{n: c.Scene.N, layer: -1})
		}
		work := func(j *job) {
			j.b = c.bv(j.start, j.n, [3]float64{})
			if j.layer >= 0 {
				j.err = j.b.VoxelizeZ(mesh, j.layer)
			} else {
				j.err = j.b.Voxelize(mesh)
			}
		}
		if c.Par == 0 {
			for _, j := range jobs {
				work(j)
			}
		} else {
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				go func() { defer wg.Done(); work(j) }()
			}
			wg.Wait()
		}
		union := map[core.P]bool{}
		for i, j := range jobs {
			if j.err != nil {
				return core.Failf("voxelizing %v+%v layer %d: %v", j.start, j.n, j.layer, j.err)
			}
			if err := bounded("sub-region", j.b); err != nil {
				return err
			}
			got := cells(j.b, j.start)
			switch {
			case i < nparts:
				for p := range got {
					union[p] = true
				}
			case j.layer >= 0:
				layer := map[core.P]bool{}
				for p := range want {
					if p[2] == j.layer {
						layer[p] = true
					}
				}
				if d := core.DiffCells(layer, got); d != "" {
					return core.Failf("layer %d alone differs from layer %d of the whole: %s", j.layer, j.layer, d)
				}
			default:
				if d := core.DiffCells(want, got); d != "" {
					return core.Failf("voxelizing again gives other cells: %s", d)
				}
			}
		}
		if err := c.same("the sub-regions together differ from the whole", want, union, x); err != nil {
			return err
		}
		// The same mesh elsewhere is a mesh like any other.
		for _, t := range mesh.Triangles {
			for _, v := range []*gl.Vertex{&t.V1, &t.V2, &t.V3} {
				v.Position = v.Position.Add(gl.V(c.Move[0], c.Move[1], c.Move[2]).MulScalar(c.Scene.MMPV))
			}
		}
		var moved []core.Tri
		for _, t := range mesh.Triangles {
			var tri core.Tri
			for i, v := range []gl.Vertex{t.V1, t.V2, t.V3} {
				tri[i] = core.Vec{v.Position.X, v.Position.Y, v.Position.Z}
			}
			moved = append(moved, tri)
		}
		fresh := c.bv([3]int{}, c.Scene.N, [3]float64{})
		if err := fresh.Voxelize(core.GLMesh(moved)); err != nil {
			return core.Failf("Voxelize: %v", err)
		}
		for _, b := range []*binvox.BinVOX{c.bv([3]int{}, c.Scene.N, [3]float64{}), whole} {
			if err := b.Voxelize(mesh); err != nil {
				return core.Failf("Voxelize: %v", err)
			}
			if d := core.DiffCells(cells(fresh, [3]int{}), cells(b, [3]int{})); d != "" {
				return core.Failf("a mesh that was voxelized, and then moved by %v voxels, has other cells than a new mesh like it: %s", c.Move, d)
			}
		}
		if nparts > 1 && len(want) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	return &core.Prop{
		ID:   "C07",
		Rule: "scenes of closed solids (as in C06) on grids of up to 20 (`large`: 64) cells per axis, also of parts of solids of up to 300000 voxels, divided at random positions along each axis; every sub-region, every single layer and up to three repeats of the whole are voxelized one after another or all at once on a shared mesh under the race detector; then the mesh is moved, and compared with a new one; half of the cases use a dyadic lattice and dyadic vertices, so that the relation is exact; non-trivial: more than one sub-region and more than one filled cell",
		Arms: []*core.Arm{
			core.NewArm("dice", 3000, 30000, gen, run),
			core.Fixed(core.NewArm("large", 150, 2000, func(t *rapid.T) diceCase { return genDice(t, 64) }, run), func(thorough bool) (out []diceCase) {
				for ax := 0; ax < 3; ax++ { // very long grids
					c := diceCase{Snap: true, Par: ax, Move: [3]float64{1, 0.5, -1}}
					c.Scene = core.Scene{N: [3]int{4, 5, 4}, T: [3]float64{1, -2, 3}, MMPV: 0.5}
					c.Scene.N[ax] = 1100
					s := core.Solid{Kind: "octa", Size: [3]float64{4, 4, 4}, Pos: [3]float64{2.375, 2.625, 2.5}}
					s.Size[ax], s.Pos[ax] = 1000, 552
					end := core.Solid{Kind: "box", Size: [3]float64{3, 2, 3}, Pos: [3]float64{2.5, 2.25, 2.75}}
					end.Pos[ax] = 1095
					c.Scene.Solids = []core.Solid{s, end}
					c.Cuts[ax] = []int{1, 1050}
					out = append(out, c)
				}
				return out
			}),
			core.NewArm("zoom", 250, 4000, func(t *rapid.T) diceCase {
				c := gen(t)
				c.Scene.Solids = core.GenZoom(t, c.Scene.N)
				return c
			}, run),
		},
		Assumptions: []string{
			"a cell that changes when the lattice is nudged by 1e-8 voxels is decided by rounding and is not compared between regions",
			"schedules are those the Go scheduler produces; data races on them are reported by the race detector",
		},
	}
}
