package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// ---------------------------------------------------------------- C32

// jobSpec is one operation on one of the models.
type jobSpec struct {
	Op string `json:"op"`
	M  int    `json:"m"`
	W  int    `json:"w"` // which of the windows
}

type togetherCase struct {
	Models  []core.Model `json:"models"`
	Windows [][2][3]int  `json:"windows"` // start and count, per model
	Jobs    []jobSpec    `json:"jobs"`
	Shared  bool         `json:"shared"` // the jobs on a model share one object
	Color   bool         `json:"color"`
}

var togetherOps = []string{"write", "read", "mesh", "manifold", "cubes", "shell", "shell-write", "shell-read", "add", "merge", "query", "voxelize", "layer"}

func (c togetherCase) object(i int) *binvox.BinVOX {
	g := c.Models[i].Grid()
	b := binvox.New(g.N[0], g.N[1], g.N[2], g.T[0], g.T[1], g.T[2], g.Scale, c.Color)
	for _, p := range g.Sorted() {
		if q := core.Paint(p); c.Color {
			b.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
		} else {
			b.Add(p[0], p[1], p[2])
		}
	}
	return b
}

func meshCount(m *gl.Mesh) map[core.Tri]int {
	out := map[core.Tri]int{}
	for _, t := range core.MeshTris(m) {
		out[t]++
	}
	return out
}

func shellMap(vs *vshell.VShell) any {
	cells := map[core.P]int{}
	for _, v := range vs.Voxels {
		cells[core.P{v.X, v.Y, v.Z}] += 1 + int(v.N)<<4
	}
	return []any{vs.NX, vs.NY, vs.NZ, vs.TX, vs.TY, vs.TZ, vs.Scale, cells}
}

func modelMap(b *binvox.BinVOX) any {
	cells := map[core.P]binvox.Color{}
	for k := range b.WhiteVoxels {
		cells[core.P{k.X, k.Y, k.Z}] = binvox.Color{}
	}
	for k, v := range b.ColorVoxels {
		cells[core.P{k.X, k.Y, k.Z}] = v
	}
	return []any{b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale, cells}
}

// do carries out a job and returns what it yields, in a comparable form.
func (c togetherCase) do(j jobSpec, b, other *binvox.BinVOX, solid *gl.Mesh, in, out string) (any, error) {
	s, n := c.Windows[j.M][0], c.Windows[j.M][1]
	if j.W == 0 {
		s, n = [3]int{}, [3]int{}
	}
	file := func(err error) (any, error) {
		if err != nil {
			return nil, err
		}
		raw, err := os.ReadFile(out)
		if err != nil {
			return nil, err
		}
		if j.Op == "write" {
			g, short, err := core.DecodeBinvox(raw)
			return []any{g, short}, err
		}
		g, short, err := core.DecodeVShell(raw)
		return []any{g, short}, err
	}
	grid := func() *binvox.BinVOX {
		return binvox.New(b.NX, b.NY, b.NZ, b.TX, b.TY, b.TZ, b.Scale, false)
	}
	switch j.Op {
	case "write":
		return file(b.Write(out, s[0], s[1], s[2], n[0], n[1], n[2]))
	case "read":
		r, err := binvox.Read(in+".binvox", s[0], s[1], s[2], n[0], n[1], n[2])
		if err != nil {
			return nil, err
		}
		return modelMap(r), nil
	case "mesh":
		return meshCount(b.ToMesh()), nil
	case "manifold":
		return meshCount(b.ManifoldMesh()), nil
	case "cubes":
		return meshCount(b.MarchingCubes()), nil
	case "shell":
		vs, err := vshell.New(b)
		if err != nil {
			return nil, err
		}
		return shellMap(vs), nil
	case "add":
		vs, err := vshell.New(b)
		if err == nil {
			err = vs.Add(other)
		}
		if err != nil {
			return nil, err
		}
		return shellMap(vs), nil
	case "shell-write":
		vs, err := vshell.New(b)
		if err != nil {
			return nil, err
		}
		return file(vs.Write(out, s[0], s[1], s[2], n[0], n[1], n[2]))
	case "shell-read":
		vs, err := vshell.Read(in+".vsh", s[0], s[1], s[2], n[0], n[1], n[2])
		if err != nil {
			return nil, err
		}
		return shellMap(vs), nil
	case "merge":
		vs, err := vshell.Merge([]string{in + ".binvox", in + ".beside.binvox"})
		if err != nil {
			return nil, err
		}
		return shellMap(vs), nil
	case "query":
		box := *b.MBB()
		q := []any{b.Dim(), b.VoxelsPerMM(), box, b.String()}
		for x := -1; x <= b.NX; x++ {
			for z := -1; z <= b.NZ; z++ {
				col, ok := b.Get(x, (x+z)%(b.NY+1), z)
				q = append(q, col, ok)
			}
		}
		return q, nil
	case "voxelize":
		v := grid()
		err := v.Voxelize(solid)
		return modelMap(v), err
	case "layer":
		v := grid()
		err := v.VoxelizeZ(solid, b.NZ/2)
		return modelMap(v), err
	}
	core.Infra("operation %q", j.Op)
	return nil, nil
}

func c32() *core.Prop {
	gen := func(t *rapid.T) togetherCase {
		c := togetherCase{Shared: rapid.Bool().Draw(t, "shared"), Color: rapid.IntRange(0, 3).Draw(t, "colour") == 0}
		for k := rapid.IntRange(1, 3).Draw(t, "models"); k > 0; k-- {
			m := core.Model{N: core.GenDims(t, 10, 500)}
			for i := range m.T {
				m.T[i] = core.GenModerate(t, "t")
			}
			m.Scale = rapid.Float64Range(0.5, 50).Draw(t, "scale")
			total := m.N[0] * m.N[1] * m.N[2]
			if rapid.Bool().Draw(t, "bits") {
				m.Runs = core.GenBits(t, total)
			} else {
				m.Runs = core.GenRuns(t, total)
			}
			c.Models = append(c.Models, m)
			s, n := core.GenWindow(t, m.N, false)
			c.Windows = append(c.Windows, [2][3]int{s, n})
		}
		ops := togetherOps
		if rapid.Bool().Draw(t, "few") { // the same thing many times
			ops = rapid.SliceOfN(rapid.SampledFrom(togetherOps), 1, 2).Draw(t, "ops")
		}
		for k := rapid.IntRange(2, 16).Draw(t, "jobs"); k > 0; k-- {
			c.Jobs = append(c.Jobs, jobSpec{rapid.SampledFrom(ops).Draw(t, "op"), rapid.IntRange(0, len(c.Models)-1).Draw(t, "m"), rapid.IntRange(0, 1).Draw(t, "w")})
		}
		return c
	}
	run := func(x *core.Ctx, c togetherCase) error {
		var shared, beside []*binvox.BinVOX
		var solids []*gl.Mesh
		put := func(i int, ext string, b []byte) {
			if err := os.WriteFile(filepath.Join(x.Dir(), fmt.Sprintf("m%d.%s", i, ext)), b, 0o644); err != nil {
				core.Infra("%v", err)
			}
		}
		move := func(g *core.Grid) *core.Grid { // one voxel further
			h := *g
			for k := range h.T {
				h.T[k] += g.MMPV()
			}
			return &h
		}
		for i, m := range c.Models {
			g := m.Grid()
			b := c.object(i)
			shared = append(shared, b)
			h := move(g)
			o := c.object(i)
			o.TX, o.TY, o.TZ = h.T[0], h.T[1], h.T[2]
			beside = append(beside, o)
			solids = append(solids, b.ToMesh())
			put(i, "binvox", core.EncodeBinvox(g, nil))
			put(i, "beside.binvox", core.EncodeBinvox(h, nil))
			put(i, "vsh", core.EncodeVShell(&core.Shell{Grid: *g, N26: core.ShellOf(g.Cells)}, nil))
		}
		type result struct {
			v   any
			err error
		}
		work := func(tag string, i int) result {
			j := c.Jobs[i]
			b, o := shared[j.M], beside[j.M]
			if !c.Shared {
				b, o = c.object(j.M), c.object(j.M)
				o.TX, o.TY, o.TZ = beside[j.M].TX, beside[j.M].TY, beside[j.M].TZ
			}
			v, err := c.do(j, b, o, solids[j.M], filepath.Join(x.Dir(), fmt.Sprintf("m%d", j.M)), filepath.Join(x.Dir(), fmt.Sprintf("%s%d.out", tag, i)))
			return result{v, err}
		}
		got := make([]result, len(c.Jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range c.Jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[i] = work("together", i)
			}()
		}
		close(start)
		wg.Wait()
		busy := map[string]bool{}
		for i, j := range c.Jobs {
			want := work("alone", i)
			what := fmt.Sprintf("%s of model %d (%v), one of %d operations at once (shared objects: %v)", j.Op, j.M, c.Models[j.M].N, len(c.Jobs), c.Shared)
			if (want.err == nil) != (got[i].err == nil) {
				return core.Failf("%s: error %v, alone %v", what, got[i].err, want.err)
			}
			if want.err == nil && !reflect.DeepEqual(want.v, got[i].v) {
				return core.Failf("%s gives another result than alone", what)
			}
			if want.err == nil && len(c.Models[j.M].Grid().Cells) > 1 {
				busy[fmt.Sprint(j, i)] = true
				x.Label("%s", j.Op)
			}
		}
		if len(busy) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	return &core.Prop{
		ID:   "C32",
		Rule: "2 to 16 operations (reading, writing, windows, the three meshes, shells, merging, queries, voxelizing) on one to three random models, started together, each with objects of its own or with the model and the mesh shared, compared with the same operation alone afterwards, under the race detector; non-trivial: at least two operations that succeed on models of two or more cells",
		Arms: []*core.Arm{core.NewArm("together", 3000, 40000, gen, run)},
		Assumptions: []string{
			"shared objects are only read; every operation writes to a file of its own",
			"schedules are those the Go scheduler produces; data races on them are reported by the race detector",
		},
	}
}
