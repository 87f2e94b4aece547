package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

func genModel(t *rapid.T, maxDim, maxCells int) core.Model {
	m := core.Model{N: core.GenDims(t, maxDim, maxCells)}
	for i := range m.T {
		m.T[i] = core.GenFloat(t, "t")
	}
	m.Scale = core.GenScale(t, "scale")
	total := m.N[0] * m.N[1] * m.N[2]
	if total <= 64 && rapid.Bool().Draw(t, "bits") {
		m.Runs = core.GenBits(t, total)
	} else {
		m.Runs = core.GenRuns(t, total)
	}
	return m
}

// otherFirst gives the file a single cell and reads it: what is read later
// must be what the file holds by then.
func otherFirst(x *core.Ctx, g *core.Grid) error {
	o := core.NewGrid(g.N, g.T, g.Scale)
	o.Cells[core.P{g.N[0] - 1, 0, g.N[2] / 2}] = true
	got, err := binvox.Read(writeFile(x, "m.binvox", core.EncodeBinvox(o, nil)), 0, 0, 0, 0, 0, 0)
	if err != nil {
		return core.Failf("a file of one cell is refused: %v", err)
	}
	return compare("read of a file of one cell", o, got)
}

// ---------------------------------------------------------------- C01

type roundTrip struct {
	Model core.Model `json:"model"`
	Split []int      `json:"split,omitempty"`
	Old   int        `json:"old,omitempty"` // bytes in the target before it is written
}

func c01() *core.Prop {
	genRT := func(t *rapid.T) roundTrip {
		return roundTrip{Model: genModel(t, 300, 6000), Old: core.GenOld(t)}
	}
	runRT := func(x *core.Ctx, c roundTrip) error {
		g := c.Model.Grid()
		if len(g.Cells) == 0 { // the statement is about non-empty models
			x.Label("empty")
			return nil
		}
		b := toBinvox(g)
		f := filepath.Join(x.Dir(), "m.binvox")
		core.WriteOld(f, c.Old)
		if err := b.Write(f, 0, 0, 0, 0, 0, 0); err != nil {
			return core.Failf("write failed: %v", err)
		}
		raw := readFile(f)
		og, short, err := core.DecodeBinvox(raw)
		if err != nil {
			return core.Failf("the written file is not well-formed: %v", err)
		}
		if short {
			return core.Failf("the written runs do not cover the grid")
		}
		if og.N != g.N || !core.SameFloat(og.Scale, g.Scale) || !core.SameFloat(og.T[0], g.T[0]) || !core.SameFloat(og.T[1], g.T[1]) || !core.SameFloat(og.T[2], g.T[2]) {
			return core.Failf("header n=%v t=%v scale=%v, want n=%v t=%v scale=%v", og.N, og.T, og.Scale, g.N, g.T, g.Scale)
		}
		if d := core.DiffCells(g.Cells, og.Cells); d != "" {
			return core.Failf("the written file decodes to other cells: %s", d)
		}
		if d := core.DiffCells(g.Cells, cellsOf(b)); d != "" {
			return core.Failf("writing changed the model: %s", d)
		}
		got, err := binvox.Read(f, 0, 0, 0, 0, 0, 0)
		if err != nil {
			return core.Failf("read back failed: %v", err)
		}
		if err := compare("read back", g, got); err != nil {
			return err
		}
		if len(g.Cells) > 1 && len(g.Cells) < g.Total() {
			x.NonTrivial()
		}
		if longest(g) >= 255 {
			x.Label("run>=255")
		}
		return nil
	}
	genRead := func(t *rapid.T) roundTrip {
		c := roundTrip{Model: genModel(t, 60, 3000)}
		c.Split = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 100, 254, 255}), 0, 6).Draw(t, "split")
		return c
	}
	runRead := func(x *core.Ctx, c roundTrip) error {
		g := c.Model.Grid()
		if err := otherFirst(x, g); err != nil {
			return err
		}
		got, err := binvox.Read(writeFile(x, "m.binvox", core.EncodeBinvox(g, c.Split)), 0, 0, 0, 0, 0, 0)
		if err != nil {
			return core.Failf("a conforming file is refused: %v", err)
		}
		if err := compare("read of a conforming file", g, got); err != nil {
			return err
		}
		if len(g.Cells) > 1 && len(c.Split) > 0 {
			x.NonTrivial()
		}
		return nil
	}
	rt := core.NewArm("write-read", 4500, 40000, genRT, runRT)
	large := core.NewArm("large", 150, 1200, func(t *rapid.T) roundTrip {
		c := roundTrip{Model: core.Model{Scale: core.GenScale(t, "scale"), T: [3]float64{core.GenFloat(t, "t"), 0, 1}}}
		total := 1
		for i, axis := range rapid.Permutation([]int{0, 1, 2}).Draw(t, "axes") {
			c.Model.N[axis] = rapid.IntRange(1, min(2000, max(1, []int{300000, 300000, 600000}[i]/total))).Draw(t, "n")
			total *= c.Model.N[axis]
		}
		left, white := total, 0
		for left > 0 && len(c.Model.Runs) < 12 {
			most := left
			if len(c.Model.Runs)%2 == 1 { // keep the occupied cells few enough
				most = min(left, 150000-white)
			}
			r := rapid.SampledFrom([]int{1, 2, 255, 256, 32767, 32768, 65280, 65534, 65535, 65536, 65537, 131070, 131071, 131072, most}).Draw(t, "run")
			if rapid.Bool().Draw(t, "any") {
				r = rapid.IntRange(0, most).Draw(t, "len")
			}
			r = min(r, most)
			if len(c.Model.Runs)%2 == 1 {
				white += r
			}
			c.Model.Runs = append(c.Model.Runs, r)
			left -= r
		}
		return c
	}, runRT)
	core.Fixed(rt, func(bool) []roundTrip {
		var out []roundTrip
		// Every run length around the count limit, in each position.
		for _, l := range []int{1, 2, 253, 254, 255, 256, 257, 508, 509, 510, 511, 512, 764, 765, 766, 1020, 2550} {
			for _, n := range [][3]int{{1, 3000, 1}, {1, 1, 3000}, {3000, 1, 1}, {3, 10, 100}} {
				for _, runs := range [][]int{{0, l}, {l, l}, {1, l, 1, l}, {0, 3000 - l, l}, {l, 3000 - l}} {
					out = append(out, roundTrip{Model: core.Model{N: n, T: [3]float64{1.5, -2.25, 0.1}, Scale: 12.5, Runs: runs}})
				}
			}
		}
		out = append(out, roundTrip{Model: core.Model{N: [3]int{16, 16, 16}, Scale: 1, Runs: []int{0, 4096}}})
		for _, m := range core.Crowded() {
			out = append(out, roundTrip{Model: m})
		}
		return append(out, roundTrip{Model: core.Vast()})
	})
	return &core.Prop{
		ID:          "C01",
		Rule:        "models are drawn as grid dimensions, alternating runs in file order (short runs, runs around multiples of 255, arbitrary runs, dense random bits), finite translations and positive scales; large grids of up to 600000 cells with runs around 2^15, 2^16 and 2^17, fixed ones with empty runs of more than 2^24 cells and one whose file takes 4.7 MB; non-trivial: at least two occupied cells and at least one empty one (write-read), or at least two occupied cells and re-split runs (conforming-read)",
		Assumptions: []string{"coloured voxels are out of scope of the file format", "models are non-empty; an empty model is written with dimensions 0 0 0"},
		Arms: []*core.Arm{rt, large, core.NewArm("conforming-read", 3750, 30000, genRead, runRead),
			core.Fixed(core.NewArm("sparse", 150, 1200, func(t *rapid.T) core.Sparse { return core.GenSparse(t, 1<<20) }, func(x *core.Ctx, c core.Sparse) error {
				g := core.NewGrid(c.N, [3]float64{1, -2, 0.5}, 7)
				g.Cells = c.Cells()
				f := filepath.Join(x.Dir(), "m.binvox")
				if err := toBinvox(g).Write(f, 0, 0, 0, 0, 0, 0); err != nil {
					return core.Failf("write failed: %v", err)
				}
				if got, want := readFile(f), c.Binvox(); !bytes.Equal(got, want) { // the only file with the longest runs
					og, short, err := core.DecodeBinvox(got)
					if err != nil || short {
						return core.Failf("the written file is not well-formed: %v short=%v", err, short)
					}
					if d := core.DiffCells(g.Cells, og.Cells); d != "" || og.N != g.N {
						return core.Failf("the written file has n=%v, want %v, and other cells: %s", og.N, g.N, d)
					}
				}
				got, err := binvox.Read(f, 0, 0, 0, 0, 0, 0)
				if err != nil {
					return core.Failf("read back failed: %v", err)
				}
				if len(g.Cells) > 1 {
					x.NonTrivial()
				}
				return compare("read back", g, got)
			}), core.Long)},
	}
}

func longest(g *core.Grid) int {
	best, cur := 0, 0
	for i := 0; i < g.Total(); i++ {
		if g.Cells[g.At(i)] {
			cur++
			if cur > best {
				best = cur
			}
		} else {
			cur = 0
		}
	}
	return best
}

// ---------------------------------------------------------------- C02

type tiling struct {
	Model core.Model `json:"model"`
	Size  [3]int     `json:"size"`
}

// genWindowDims draws small grids, and some with long axes.
func genWindowDims(t *rapid.T) [3]int {
	if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
		return core.GenDims(t, 700, 9000)
	}
	return core.GenDims(t, 12, 600)
}

func c02() *core.Prop {
	gen := func(t *rapid.T) core.Window {
		m := core.Model{N: genWindowDims(t), T: [3]float64{core.GenModerate(t, "t"), core.GenModerate(t, "t"), core.GenModerate(t, "t")}, Scale: core.GenScale(t, "scale")}
		m.Runs = core.GenRuns(t, m.N[0]*m.N[1]*m.N[2])
		s, c := core.GenWindow(t, m.N, true)
		return core.Window{Model: m, S: s, C: c}
	}
	run := func(x *core.Ctx, c core.Window) error {
		g := c.Model.Grid()
		if c.S[0]%2 == 0 {
			if err := otherFirst(x, g); err != nil {
				return err
			}
		}
		got, err := binvox.Read(writeFile(x, "m.binvox", core.EncodeBinvox(g, nil)), c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if err != nil {
			return core.Failf("a valid window %v+%v is refused: %v", c.S, c.C, err)
		}
		w := core.Windowed(g, c.S, c.C)
		if err := compare(fmt.Sprintf("window %v+%v of %v", c.S, c.C, g.N), w, got); err != nil {
			return err
		}
		if len(w.Cells) > 0 && len(w.Cells) < len(g.Cells) {
			x.NonTrivial()
		}
		return nil
	}
	genT := func(t *rapid.T) tiling {
		m := core.Model{N: core.GenDims(t, 10, 300), Scale: 10}
		m.Runs = core.GenBits(t, m.N[0]*m.N[1]*m.N[2])
		var s [3]int
		for i := range s {
			s[i] = rapid.IntRange(1, m.N[i]+1).Draw(t, "size")
			if m.N[i] > 4 && s[i] < 2 {
				s[i] = 2
			}
		}
		return tiling{m, s}
	}
	runT := func(x *core.Ctx, c tiling) error {
		g := c.Model.Grid()
		f := writeFile(x, "m.binvox", core.EncodeBinvox(g, nil))
		seen := map[core.P]int{}
		windows := 0
		for a := 0; a < g.N[0]; a += c.Size[0] {
			for b := 0; b < g.N[1]; b += c.Size[1] {
				for d := 0; d < g.N[2]; d += c.Size[2] {
					got, err := binvox.Read(f, a, b, d, c.Size[0], c.Size[1], c.Size[2])
					if err != nil {
						return core.Failf("window refused: %v", err)
					}
					windows++
					for p := range cellsOf(got) {
						seen[p]++
					}
				}
			}
		}
		for p := range g.Cells {
			if seen[p] != 1 {
				return core.Failf("cell %v of grid %v appears in %d of the windows of size %v that tile it", p, g.N, seen[p], c.Size)
			}
		}
		for p := range seen {
			if !g.Cells[p] {
				return core.Failf("windows return cell %v which the model does not hold", p)
			}
		}
		if windows > 1 && len(g.Cells) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	genBad := func(t *rapid.T) core.Window {
		m := core.Model{N: core.GenDims(t, 6, 100), Scale: 1}
		m.Runs = core.GenBits(t, m.N[0]*m.N[1]*m.N[2])
		s, c := core.GenWindow(t, m.N, false)
		k := rapid.IntRange(0, 8).Draw(t, "bad")
		switch k / 3 {
		case 0:
			s[k%3] = -rapid.IntRange(1, 5).Draw(t, "neg")
		case 1:
			c[k%3] = -rapid.IntRange(1, 5).Draw(t, "neg")
		default:
			s[k%3] = m.N[k%3] + rapid.IntRange(1, 9).Draw(t, "past")
		}
		return core.Window{Model: m, S: s, C: c}
	}
	runBad := func(x *core.Ctx, c core.Window) error {
		g := c.Model.Grid()
		_, err := binvox.Read(writeFile(x, "m.binvox", core.EncodeBinvox(g, nil)), c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if err == nil {
			return core.Failf("the invalid window %v+%v of a %v grid is accepted", c.S, c.C, g.N)
		}
		x.NonTrivial()
		return nil
	}
	sparse := core.NewArm("sparse", 200, 1500, func(t *rapid.T) core.Sparse { return core.GenSparse(t, 1<<23) }, func(x *core.Ctx, c core.Sparse) error {
		got, err := binvox.Read(writeFile(x, "m.binvox", c.Binvox()), c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if err != nil {
			return core.Failf("a valid window %v+%v of %v is refused: %v", c.S, c.C, c.N, err)
		}
		g := core.NewGrid(c.N, [3]float64{1, -2, 0.5}, 7)
		g.Cells = c.Cells()
		w := core.Windowed(g, c.S, c.C)
		if len(w.Cells) > 0 {
			x.NonTrivial()
		}
		return compare(fmt.Sprintf("window %v+%v of %v", c.S, c.C, c.N), w, got)
	})
	core.Fixed(sparse, core.Huge)
	return &core.Prop{
		ID:   "C02",
		Rule: "a few cells in a grid of up to 2^23 cells, and of more than 2^31, and a window next to them; a random model, its file and a random window (start up to and including the dimension, count 0, 1, within or beyond the grid); tilings by random window sizes; invalid windows; non-trivial: the window holds some but not all occupied cells, the tiling has several windows and cells, or the window is invalid",
		Arms: []*core.Arm{
			core.Fixed(core.NewArm("window", 6250, 60000, gen, run), func(bool) []core.Window { return core.CrowdedWindows() }),
			core.NewArm("tiling", 850, 8000, genT, runT),
			core.NewArm("invalid", 1250, 8000, genBad, runBad),
			sparse,
		},
	}
}

// ---------------------------------------------------------------- C03

func c03() *core.Prop {
	gen := func(t *rapid.T) core.Window {
		m := core.Model{N: genWindowDims(t), T: [3]float64{core.GenModerate(t, "t"), core.GenModerate(t, "t"), core.GenModerate(t, "t")}}
		m.Scale = rapid.Float64Range(0.01, 500).Draw(t, "scale")
		m.Runs = core.GenRuns(t, m.N[0]*m.N[1]*m.N[2])
		s, c := core.GenWindow(t, m.N, false)
		return core.Window{Model: m, S: s, C: c, Old: core.GenOld(t)}
	}
	check := func(x *core.Ctx, g *core.Grid, c core.Window) error {
		w := core.Windowed(g, c.S, c.C)
		if len(g.Cells) == 0 {
			return nil
		}
		f := filepath.Join(x.Dir(), "w.binvox")
		core.WriteOld(f, c.Old)
		if err := toBinvox(g).Write(f, c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2]); err != nil {
			return core.Failf("window write failed: %v", err)
		}
		og, short, err := core.DecodeBinvox(readFile(f))
		if err != nil || short {
			return core.Failf("the windowed file is not well-formed: %v short=%v", err, short)
		}
		mmpv := g.MMPV()
		back := map[core.P]bool{}
		at := [3]float64{}
		for p := range og.Cells {
			var q core.P
			for i := range q {
				q[i] = p[i] + c.S[i]
				if at[i] = og.T[i] + float64(p[i])*og.MMPV(); !core.Near(at[i], g.T[i]+float64(q[i])*mmpv, mmpv) {
					return core.Failf("window %v+%v of %v (t=%v, voxel %v): cell %v is written at %v on axis %d, want %v", c.S, c.C, g.N, g.T, mmpv, q, at[i], i, g.T[i]+float64(q[i])*mmpv)
				}
			}
			back[q] = true
		}
		if d := core.DiffCells(w.Cells, back); d != "" {
			return core.Failf("window %v+%v of %v: cells: %s", c.S, c.C, g.N, d)
		}
		if !core.Near(og.MMPV(), mmpv, 0) {
			return core.Failf("window %v+%v of %v: voxel size %v, want %v", c.S, c.C, g.N, og.MMPV(), mmpv)
		}
		inside := true
		n := og.N
		for i := range n {
			if c.C[i] > 0 && og.N[i] != c.C[i] {
				return core.Failf("window %v+%v of %v has dimensions %v", c.S, c.C, g.N, og.N)
			}
			if want := g.T[i] + float64(c.S[i])*mmpv; !core.Near(og.T[i], want, mmpv) {
				return core.Failf("window %v+%v of %v (t=%v, voxel %v): translation[%d] = %v, want %v", c.S, c.C, g.N, g.T, mmpv, i, og.T[i], want)
			}
			inside = inside && c.S[i]+og.N[i] <= g.N[i]
		}
		x.Label("inside=%v", inside)
		if n == g.N && c.S == [3]int{} {
			f2 := filepath.Join(x.Dir(), "all.binvox")
			if err := toBinvox(g).Write(f2, 0, 0, 0, 0, 0, 0); err != nil {
				return core.Failf("write failed: %v", err)
			}
			if !bytes.Equal(readFile(f), readFile(f2)) {
				return core.Failf("writing the full window differs from writing everything")
			}
			x.Label("full window")
		}
		if len(w.Cells) > 0 && n != g.N {
			x.NonTrivial()
			if c.S != [3]int{} {
				x.Label("shifted")
			}
		}
		return nil
	}
	run := func(x *core.Ctx, c core.Window) error { return check(x, c.Model.Grid(), c) }
	sparse := core.NewArm("sparse", 150, 1200, func(t *rapid.T) core.Sparse { return core.GenSparse(t, 1<<20) }, func(x *core.Ctx, c core.Sparse) error {
		g := core.NewGrid(c.N, [3]float64{1, -2, 0.5}, 7)
		g.Cells = c.Cells()
		for i := range c.C { // inside the grid
			c.S[i] = min(c.S[i], c.N[i]-1)
			c.C[i] = min(c.C[i], c.N[i]-c.S[i])
			if c.C[i] == 0 && c.S[i] > 0 {
				c.C[i] = c.N[i] - c.S[i]
			}
		}
		return check(x, g, core.Window{S: c.S, C: c.C})
	})
	core.Fixed(sparse, func(thorough bool) (out []core.Sparse) {
		for _, c := range core.Long(thorough) {
			c.S, c.C = [3]int{1, 0, 0}, [3]int{c.N[0] - 1, 0, 0}
			out = append(out, c)
		}
		return out
	})
	return &core.Prop{
		ID:          "C03",
		Rule:        "a random model and a window inside its grid (up to a million cells of which few are occupied, and fixed ones with empty runs of more than 2^24 cells), written and decoded by an independent reader; non-trivial: the window is smaller than the grid and holds an occupied cell",
		Assumptions: []string{"world positions are compared to 1e-9 relative"},
		Arms:        []*core.Arm{core.Fixed(core.NewArm("window-write", 10000, 80000, gen, run), func(bool) []core.Window { return core.CrowdedWindows() }), sparse},
	}
}

// ---------------------------------------------------------------- C04

func c04() *core.Prop {
	gen := func(t *rapid.T) core.RawFile {
		m := core.Model{N: core.GenDims(t, 8, 200), T: [3]float64{1, -2.5, 0.1}, Scale: 3}
		m.Runs = core.GenRuns(t, m.N[0]*m.N[1]*m.N[2])
		split := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 100, 255}), 0, 3).Draw(t, "split")
		b := core.GenBytes(t, "#binvox 1", core.EncodeBinvox(m.Grid(), split), 2)
		c := core.RawFile{Data: b, Text: strings.ToValidUTF8(string(b), "?")}
		if rapid.IntRange(0, 2).Draw(t, "win") == 0 {
			for i := range c.S {
				c.S[i] = rapid.IntRange(0, 4).Draw(t, "s")
				c.C[i] = core.GenCount(t)
			}
		}
		return c
	}
	run := func(x *core.Ctx, c core.RawFile) error {
		f := writeFile(x, "m.binvox", c.Data)
		want, _, werr := core.DecodeBinvox(c.Data)
		before := core.Allocated()
		got, err := binvox.Read(f, c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if used := core.Allocated() - before; used > core.AllocLimit(len(c.Data)) {
			return core.Failf("reading %d bytes allocates %d MB: %q", len(c.Data), used>>20, c.Text)
		}
		if werr == nil {
			for i := range c.S {
				if c.S[i] > want.N[i] {
					werr = fmt.Errorf("start beyond the grid")
				}
			}
		}
		switch {
		case werr != nil && err == nil:
			return core.Failf("malformed content is accepted (%v): %q", werr, c.Text)
		case werr == nil && err != nil:
			return core.Failf("well-formed content is refused (%v): %q", err, c.Text)
		case werr != nil:
			if len(c.Data) > 20 {
				x.NonTrivial()
			}
			x.Label("refused")
			return nil
		}
		w := core.Windowed(want, c.S, c.C)
		for i, v := range want.T { // NaN headers compare by class
			if math.IsNaN(v) {
				w.T[i] = []float64{got.TX, got.TY, got.TZ}[i]
				if !math.IsNaN(w.T[i]) {
					return core.Failf("translation NaN read as %v", w.T[i])
				}
			}
		}
		if math.IsNaN(want.Scale) && math.IsNaN(got.Scale) {
			w.Scale = got.Scale
		}
		if err := compare("decoded model", w, got); err != nil {
			return err
		}
		x.Label("accepted")
		if len(want.Cells) > 0 {
			x.NonTrivial()
		}
		return nil
	}
	a := core.NewArm("bytes", 22500, 250000, gen, run)
	core.Fixed(a, func(bool) []core.RawFile {
		var out []core.RawFile
		add := func(s string) { out = append(out, core.RawFile{Data: []byte(s), Text: s}) }
		h := "#binvox 1\ndim 2 2 2\ntranslate 0 0 0\nscale 1\ndata\n"
		for _, tail := range []string{"", "\x01", "\x00", "\x01\x00", "\x00\x00", "\x02\x01", "\xff\x01", "\x01\x08", "\x00\x08", "\x01\x09", "\x00\x09", "\x01\x08\x00\x01", "\x01\x08\x01", "\x01\xff", "\x00\xff", "\x01\x07\x00\x01", "\x01\x07"} {
			add(h + tail)
		}
		for _, d := range []string{"0 0 0", "1 0 1", "0 1 1", "1 1 0", "2 0 0", "0 2 2", "1024 1024 1024", "2000 1000 500", "100000000 1 1", "1 1000000000 1", "1 1 3000000000", "20000 20000 20000", "1000000 1000000 1000000", "9223372036854775807 9223372036854775807 2"} {
			for _, tail := range []string{"", "\x01\x01", "\x00\x01", "\x01\xff"} {
				add("#binvox 1\ndim " + d + "\ntranslate 0 0 0\nscale 1\ndata\n" + tail)
			}
		}
		for i := 0; i <= len(h); i++ {
			add(h[:i])
		}
		return out
	})
	return &core.Prop{
		ID:          "C04",
		Rule:        "byte strings: valid files with random run splits, truncations at any byte, appended bytes, flipped bytes, header line variants, tiny and zero dimensions with random runs, and arbitrary bytes; non-trivial: refused content longer than 20 bytes, or accepted content with an occupied cell",
		Assumptions: []string{"the independent decoder accepts runs that end before the grid is covered (the existing tests require it)", "header syntax is the one the documentation of the format and the existing readers share: single spaces between fields, trailing blanks allowed on dim, translate and scale lines"},
		Arms:        []*core.Arm{a},
	}
}

var _ = os.Args
