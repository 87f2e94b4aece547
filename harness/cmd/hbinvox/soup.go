package main

import (
	"math"

	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// soupCase is any mesh on any grid. Coordinates are in voxels from the grid's
// origin; those that JSON cannot hold are codes.
type soupCase struct {
	N     [3]int         `json:"n"`
	T     [3]float64     `json:"t"`
	MMPV  float64        `json:"mmpv"`
	Tris  [][3][3]coord  `json:"tris,omitempty"`
	Solid []core.Solid   `json:"solids,omitempty"` // closed
	Out   []core.Solid   `json:"out,omitempty"`    // closed, outside of the grid
	Zs    []int          `json:"zs,omitempty"`
	Box   *[2][3]float64 `json:"box,omitempty"` // distances of a box around the grid
}

type coord struct {
	V float64 `json:"v"`
	S int     `json:"s,omitempty"` // 1: NaN, 2: +Inf, 3: -Inf
}

func (c coord) value() float64 {
	switch c.S {
	case 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	}
	return c.V
}

func (c soupCase) grid() *binvox.BinVOX {
	return binvox.New(c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], c.T[2], float64(max(c.N[0], c.N[1], c.N[2]))*c.MMPV, false)
}

func (c soupCase) world(vox []core.Tri) []core.Tri {
	for i := range vox {
		for j := range vox[i] {
			for k := range vox[i][j] {
				vox[i][j][k] = c.T[k] + vox[i][j][k]*c.MMPV
			}
		}
	}
	return vox
}

func genSoupGrid(t *rapid.T, c *soupCase) {
	for i := range c.N {
		c.N[i] = rapid.IntRange(1, 10).Draw(t, "n")
		c.T[i] = core.GenModerate(t, "t")
	}
	c.MMPV = rapid.SampledFrom([]float64{1, 0.5, 0.1, 1.0 / 3, 2}).Draw(t, "mmpv")
}

func c29() *core.Prop {
	// voxelize runs whole and layer by layer, and checks what they have in common.
	voxelize := func(c soupCase, tris []core.Tri) (map[core.P]bool, error) {
		mesh := core.GLMesh(tris)
		b := c.grid()
		if err := b.Voxelize(mesh); err != nil {
			return nil, nil
		}
		cells := cellsOf(b)
		for p := range cells {
			for i := range p {
				if p[i] < 0 || p[i] >= c.N[i] {
					return nil, core.Failf("%d triangles on a grid of %v: cell %v is outside the grid", len(tris), c.N, p)
				}
			}
		}
		for _, z := range c.Zs {
			z %= c.N[2]
			b := c.grid()
			if err := b.VoxelizeZ(mesh, z); err != nil {
				return nil, core.Failf("%d triangles on a grid of %v: layer %d alone: %v", len(tris), c.N, z, err)
			}
			layer := map[core.P]bool{}
			for p := range cells {
				if p[2] == z {
					layer[p] = true
				}
			}
			if d := core.DiffCells(layer, cellsOf(b)); d != "" {
				return nil, core.Failf("%d triangles on a grid of %v: layer %d alone differs from that layer of the whole: %s", len(tris), c.N, z, d)
			}
		}
		return cells, nil
	}

	genCoord := func(t *rapid.T, n int, wild int) coord {
		switch k := rapid.IntRange(0, 23).Draw(t, "c"); {
		case k < wild && k == 0:
			return coord{S: rapid.IntRange(1, 3).Draw(t, "special")}
		case k < wild:
			v := math.Pow(10, float64(rapid.IntRange(1, 308).Draw(t, "exp")))
			if rapid.Bool().Draw(t, "near") {
				v = math.Pow(10, float64(rapid.IntRange(1, 12).Draw(t, "nearexp")))
			}
			return coord{V: v * float64(1-2*rapid.IntRange(0, 1).Draw(t, "sign"))}
		case k < 16:
			return coord{V: float64(rapid.IntRange(-4, 2*n+4).Draw(t, "half")) / 2}
		default:
			return coord{V: rapid.Float64Range(-2, float64(n)+2).Draw(t, "v")}
		}
	}
	genSoup := func(t *rapid.T) soupCase {
		var c soupCase
		genSoupGrid(t, &c)
		wild := rapid.SampledFrom([]int{0, 1, 2, 4}).Draw(t, "wild")
		var pool [][3]coord
		for k := rapid.IntRange(2, 10).Draw(t, "points"); k > 0; k-- {
			var p [3]coord
			for i := range p {
				p[i] = genCoord(t, c.N[i], wild)
			}
			pool = append(pool, p)
		}
		for k := rapid.IntRange(1, 14).Draw(t, "tris"); k > 0; k-- {
			var tri [3][3]coord
			for i := range tri {
				tri[i] = pool[rapid.IntRange(0, len(pool)-1).Draw(t, "p")]
			}
			c.Tris = append(c.Tris, tri)
		}
		c.Zs = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 2).Draw(t, "zs")
		return c
	}
	runSoup := func(x *core.Ctx, c soupCase) error {
		var vox []core.Tri
		odd := false
		for _, t := range c.Tris {
			var tri core.Tri
			for i := range t {
				for k := range t[i] {
					tri[i][k] = t[i][k].value()
					odd = odd || !(math.Abs(tri[i][k]) < 1e3)
				}
			}
			vox = append(vox, tri)
		}
		cells, err := voxelize(c, c.world(vox))
		if err != nil {
			return err
		}
		if odd {
			x.Label("far or invalid")
		}
		if len(cells) > 0 {
			x.NonTrivial()
		}
		return nil
	}

	genGrid := func(t *rapid.T) soupCase {
		var c soupCase
		genSoupGrid(t, &c)
		for k := rapid.IntRange(1, 3).Draw(t, "bad"); k > 0; k-- {
			c.N[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.SampledFrom([]int{0, 0, -1, -7, math.MinInt64, math.MinInt32}).Draw(t, "size")
		}
		c.Solid = core.GenSolids(t, [3]int{5, 5, 5}, 2, 9, true)
		return c
	}
	runGrid := func(x *core.Ctx, c soupCase) error {
		mesh := core.GLMesh(c.world(core.SceneTris(c.Solid)))
		for _, f := range []func(*binvox.BinVOX) error{
			func(b *binvox.BinVOX) error { return b.Voxelize(mesh) },
			func(b *binvox.BinVOX) error { return b.VoxelizeZ(mesh, 0) },
		} {
			b := binvox.New(c.N[0], c.N[1], c.N[2], c.T[0], c.T[1], c.T[2], 7, false)
			if err := f(b); err == nil {
				return core.Failf("voxelizing on a grid of %v is reported as done, with %d cells", c.N, len(b.WhiteVoxels))
			}
		}
		x.NonTrivial()
		return nil
	}

	genOut := func(t *rapid.T) soupCase {
		var c soupCase
		genSoupGrid(t, &c)
		c.Solid = core.GenSolids(t, c.N, 1, 12, true)
		for k := rapid.IntRange(1, 3).Draw(t, "outs"); k > 0; k-- {
			s := core.GenSolid(t, 0.5, 12)
			// Beyond the grid along one axis, anywhere on the others.
			far := rapid.IntRange(0, 2).Draw(t, "far")
			for i := range s.Pos {
				s.Pos[i] = rapid.Float64Range(-10, float64(c.N[i])+10).Draw(t, "pos")
			}
			d := 30 * math.Pow(10, float64(rapid.IntRange(0, 4).Draw(t, "dist")))
			if rapid.Bool().Draw(t, "side") {
				d = float64(c.N[far]) + d
			} else {
				d = -d
			}
			s.Pos[far] = d
			c.Out = append(c.Out, s)
		}
		c.Zs = []int{rapid.IntRange(0, 9).Draw(t, "z")}
		return c
	}
	runOut := func(x *core.Ctx, c soupCase) error {
		in := core.SceneTris(c.Solid)
		want, err := voxelize(c, c.world(in))
		if err != nil {
			return err
		}
		all := append(core.SceneTris(c.Out), core.SceneTris(c.Solid)...)
		got, err := voxelize(c, c.world(all))
		if err != nil {
			return err
		}
		if d := core.DiffCells(want, got); d != "" {
			return core.Failf("solids far outside of the grid of %v change its cells: %s", c.N, d)
		}
		if len(want) > 0 {
			x.NonTrivial()
		}
		return nil
	}

	genAround := func(t *rapid.T) soupCase {
		var c soupCase
		genSoupGrid(t, &c)
		c.Box = &[2][3]float64{}
		for i := range c.N {
			for j := range c.Box {
				c.Box[j][i] = 2 * math.Pow(10, rapid.Float64Range(0, rapid.SampledFrom([]float64{8, 20, 300}).Draw(t, "reach")).Draw(t, "dist"))
			}
		}
		return c
	}
	runAround := func(x *core.Ctx, c soupCase) error {
		var at [3]float64
		s := core.Solid{Kind: "box", Size: [3]float64{2, 2, 2}}
		tris := core.SceneTris([]core.Solid{s})
		for i := range tris { // a sum of both distances would round the nearer one
			for j := range tris[i] {
				for k := range at {
					if tris[i][j][k] < 0 {
						tris[i][j][k] = -c.Box[0][k]
					} else {
						tris[i][j][k] = float64(c.N[k]) + c.Box[1][k]
					}
				}
			}
		}
		cells, err := voxelize(c, c.world(tris))
		if err != nil {
			return err
		}
		if len(cells) != c.N[0]*c.N[1]*c.N[2] {
			return core.Failf("a box around the grid of %v (%v) fills %d of its %d cells", c.N, *c.Box, len(cells), c.N[0]*c.N[1]*c.N[2])
		}
		x.NonTrivial()
		return nil
	}
	return &core.Prop{
		ID:   "C29",
		Rule: "up to 14 arbitrary triangles on a pool of up to ten points (on and off the lattice, up to 1e308 away, not-a-number, infinite; open, degenerate, repeated) on grids of up to 10 cells per axis; grids without cells; closed solids with others 30 to 300000 voxels outside of the grid; boxes up to 2e300 voxels around the grid; non-trivial: some cell is filled, or a grid without cells is refused",
		Arms: []*core.Arm{
			core.NewArm("soup", 24000, 150000, genSoup, runSoup),
			core.NewArm("nogrid", 400, 2000, genGrid, runGrid),
			core.NewArm("outside", 6000, 30000, genOut, runOut),
			core.NewArm("around", 600, 5000, genAround, runAround),
		},
		CaseLimit: 60e9,
	}
}
