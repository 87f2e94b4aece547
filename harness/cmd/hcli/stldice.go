package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"pgregory.net/rapid"
	"verif/harness/core"
)

type stlModel struct {
	Solids []core.Solid `json:"solids"` // in voxels from the grid's origin
	ASCII  bool         `json:"ascii,omitempty"`
	Empty  bool         `json:"empty,omitempty"` // a file of no triangles
}

type stldiceCase struct {
	T      [3]float64 `json:"t"`
	MMPV   float64    `json:"mmpv"`
	Snap   bool       `json:"snap"` // dyadic vertices: exact arithmetic
	Ext    [3]float64 `json:"ext"`  // box in voxels
	MBB    int        `json:"mbb"`  // 0: computed from the base, otherwise the spelling of -mbb
	Dim    int        `json:"dim"`
	Div    [3]int     `json:"div"`
	Models []stlModel `json:"models"` // base and cuts
	Dir    string     `json:"dir,omitempty"`
	Name   string     `json:"name,omitempty"` // start of the names of the files
	Redo   []int      `json:"redo,omitempty"` // region files removed before a second run
	Twice  bool       `json:"twice,omitempty"`
	Old    int        `json:"old,omitempty"`    // bytes in the images beforehand (stldice-mr)
	Smooth int        `json:"smooth,omitempty"` // degrees
	After  bool       `json:"after,omitempty"`  // the base's name comes after those of the cuts
	Far    bool       `json:"far,omitempty"`    // text files with more digits than a binary file can hold
}

// encode returns the STL file of a model.
func (c stldiceCase) encode(m stlModel, tris []core.Tri) []byte {
	if (m.ASCII || c.Far) && !m.Empty {
		return core.RespellASCII(core.EncodeASCIISTL(tris), len(tris)/4*5+c.Dim)
	}
	return core.EncodeSTL(tris)
}

// file is the name of the i-th model's file; that of the first cut is given.
func (c stldiceCase) file(i int, cut string) string {
	switch {
	case i == 0 && c.After:
		return "vase.stl"
	case i == 0:
		return "base.stl"
	case i == 1:
		return cut
	case i == 2:
		return "other.stl"
	}
	return fmt.Sprintf("more%d.stl", i)
}

// genCrowd replaces the models of a case by a block with many small cuts.
func genCrowd(t *rapid.T, c *stldiceCase, counts []int) {
	for i := range c.Div {
		c.Div[i] = rapid.IntRange(1, 2).Draw(t, "crowddiv")
	}
	c.Dim = 2 * rapid.IntRange(3, 6).Draw(t, "crowddim")
	c.Snap, c.MMPV = true, 0.5
	for i := range c.Ext {
		c.Ext[i] = float64(rapid.IntRange(5, c.Dim).Draw(t, "crowdext"))
	}
	c.Ext[rapid.IntRange(0, 2).Draw(t, "crowdlong")] = float64(c.Dim)
	block := core.Solid{Kind: "box", Size: c.Ext}
	for i := range c.Ext {
		block.Pos[i] = c.Ext[i] / 2
	}
	c.Models = []stlModel{{Solids: []core.Solid{block}}}
	for k := rapid.SampledFrom(counts).Draw(t, "crowd"); k > 0; k-- {
		s := core.Solid{Kind: "box"}
		for i := range s.Size {
			s.Size[i] = float64(rapid.IntRange(1, 2).Draw(t, "size"))
			s.Pos[i] = s.Size[i]/2 + float64(rapid.IntRange(0, int(c.Ext[i]-s.Size[i])).Draw(t, "at"))
		}
		c.Models = append(c.Models, stlModel{Solids: []core.Solid{s}, ASCII: k%7 == 3})
	}
}

// tris is a model's surface in mm as a file holds it.
func (c stldiceCase) tris(m stlModel, pin bool) []core.Tri {
	if m.Empty {
		return nil
	}
	solids := m.Solids
	if pin { // two small boxes at the corners of the box
		a, b := core.Solid{Kind: "box"}, core.Solid{Kind: "box"}
		for i := range a.Size {
			a.Size[i] = min(1, c.Ext[i])
			a.Pos[i] = a.Size[i] / 2
			b.Size[i] = a.Size[i]
			b.Pos[i] = c.Ext[i] - a.Size[i]/2
		}
		solids = append([]core.Solid{a, b}, solids...)
	}
	tris := core.SceneTris(solids)
	for i := range tris {
		for j := range tris[i] {
			for k := range tris[i][j] {
				v := tris[i][j][k]*c.MMPV + c.T[k]
				if c.Snap {
					v = math.Round(v*1024) / 1024
				}
				tris[i][j][k] = v
			}
		}
	}
	if c.Far {
		return tris
	}
	return core.Round32(tris)
}

func (c stldiceCase) mbbFlag(lo, hi [3]float64) string {
	f := map[int]string{
		1: "(%v,%v,%v)-(%v,%v,%v)",
		2: "[%v,%v,%v]-[%v,%v,%v]",
		3: " ( %v , %v,\t%v ) - ( %v, %v , %v ) ",
		4: "(%v,%v,%v) - [%v,%v,%v]",
		5: "%v,%v,%v - %v,%v,%v",
	}[c.MBB]
	return fmt.Sprintf(f, lo[0], lo[1], lo[2], hi[0], hi[1], hi[2])
}

func genStldice(t *rapid.T) stldiceCase {
	c := stldiceCase{Snap: rapid.Bool().Draw(t, "snap")}
	if c.Snap {
		c.MMPV = rapid.SampledFrom([]float64{1, 0.5, 0.25, 2}).Draw(t, "mmpv")
		for i := range c.T {
			c.T[i] = float64(rapid.IntRange(-400, 400).Draw(t, "t")) / 8
		}
	} else {
		c.MMPV = rapid.SampledFrom([]float64{1, 0.1, 1.0 / 3, 0.7, 2.5}).Draw(t, "mmpv")
		for i := range c.T {
			c.T[i] = math.Round(rapid.Float64Range(-100, 100).Draw(t, "t")*1e4) / 1e4
		}
	}
	if c.Far = rapid.IntRange(0, 5).Draw(t, "far") == 0; c.Far {
		for i := range c.T {
			if c.Snap {
				c.T[i] += rapid.SampledFrom([]float64{0, 1<<24 + 1, -(1<<26 + 5), 1e7}).Draw(t, "away")
			} else {
				c.T[i] += rapid.SampledFrom([]float64{0, 512345.678, -1e6}).Draw(t, "away")
			}
		}
	}
	for i := range c.Div {
		c.Div[i] = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 7}).Draw(t, "div")
	}
	for c.Div[0]*c.Div[1]*c.Div[2] > 27 {
		k := rapid.IntRange(0, 2).Draw(t, "shrink")
		c.Div[k] = (c.Div[k] + 1) / 2
	}
	l := lcm(c.Div[0], lcm(c.Div[1], c.Div[2]))
	c.Dim = l * rapid.IntRange((5+l)/l, max(24/l, (5+l)/l)).Draw(t, "dim")
	long := rapid.IntRange(0, 2).Draw(t, "long")
	for i := range c.Ext {
		c.Ext[i] = float64(c.Dim)
		if i != long {
			c.Ext[i] = float64(rapid.IntRange(3, 4*c.Dim).Draw(t, "ext")) / 4
		}
	}
	c.MBB = rapid.IntRange(0, 5).Draw(t, "mbb")
	for k := rapid.IntRange(0, 2).Draw(t, "cuts"); k >= 0; k-- {
		m := stlModel{ASCII: rapid.IntRange(0, 3).Draw(t, "ascii") == 0}
		n := [3]int{int(c.Ext[0]), int(c.Ext[1]), int(c.Ext[2])}
		m.Solids = core.GenSolids(t, n, rapid.SampledFrom([]float64{2, 0.5}).Draw(t, "lo"), 18, true)
		if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
			m.Solids = m.Solids[:1]
		}
		m.Empty = len(c.Models) > 0 && rapid.IntRange(0, 9).Draw(t, "empty") == 0
		c.Models = append(c.Models, m)
	}
	if rapid.IntRange(0, 5).Draw(t, "sub") == 0 {
		c.Dir = rapid.SampledFrom([]string{"sub/", "~/", "a b/", "sub/-/"}).Draw(t, "dir")
	}
	if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
		c.Name = core.GenName(t, "")
	}
	if rapid.IntRange(0, 4).Draw(t, "smooths") == 0 {
		c.Smooth = rapid.SampledFrom([]int{1, 30, 90, 180}).Draw(t, "smooth")
	}
	c.After = rapid.Bool().Draw(t, "after")
	if rapid.IntRange(0, 2).Draw(t, "again") == 0 {
		c.Redo = rapid.SliceOfN(rapid.IntRange(0, 40), 0, 6).Draw(t, "redo")
		c.Twice = true
	}
	return c
}

// genManyRegions draws more regions than genStldice, some with indices of three digits.
func genManyRegions(t *rapid.T) stldiceCase {
	c := genStldice(t)
	ax := rapid.IntRange(0, 2).Draw(t, "axis")
	long, n := ax, 0
	if rapid.Bool().Draw(t, "line") {
		c.Div = [3]int{1, 1, 1}
		n = rapid.IntRange(98, 130).Draw(t, "div")
		c.Div[ax] = n
	} else {
		n = rapid.IntRange(4, 12).Draw(t, "div")
		c.Div = [3]int{n, n, n}
		c.Div[ax] = rapid.SampledFrom([]int{1, 2}).Draw(t, "across")
		if n < 6 {
			c.Div[ax] = n
		}
		if n%c.Div[ax] != 0 {
			c.Div[ax] = 1
		}
		long = (ax + 1) % 3
	}
	c.Dim = n * rapid.IntRange(max(1, 6/n), max(1, 24/n)).Draw(t, "dim")
	for i := range c.Ext {
		c.Ext[i] = float64(c.Dim)
		if i != long {
			c.Ext[i] = float64(rapid.IntRange(max(3, 2*c.Dim), 4*c.Dim).Draw(t, "ext")) / 4
		}
		if c.Div[i] == 1 {
			c.Ext[i] = min(c.Ext[i], 6)
		}
	}
	c.Models = c.Models[:min(2, len(c.Models))]
	for i := range c.Models {
		m := &c.Models[i]
		s := core.Solid{Kind: rapid.SampledFrom([]string{"box", "cubes", "octa"}).Draw(t, "kind"), Bits: rapid.IntRange(1, 1<<27-1).Draw(t, "bits")}
		for a := range s.Size {
			s.Size[a] = c.Ext[a] * rapid.SampledFrom([]float64{1, 0.9, 0.5}).Draw(t, "size")
			s.Pos[a] = c.Ext[a] / 2
		}
		m.Solids = append(m.Solids, s)
	}
	return c
}

// plain has the default divisions, and the default resolution of 8192 or less.
func plain(dim int) stldiceCase {
	c := stldiceCase{MMPV: 0.5, Snap: true, Ext: [3]float64{float64(dim), 8, 1}, Dim: dim, Div: [3]int{8, 8, 1}}
	box := func(lo, hi, y float64) core.Solid {
		d := float64(dim)
		return core.Solid{Kind: "box", Size: [3]float64{d * (hi - lo), y, 1}, Pos: [3]float64{d * (hi + lo) / 2, y / 2, 0.5}}
	}
	c.Models = []stlModel{{Solids: []core.Solid{box(0, 1, 8)}}, {Solids: []core.Solid{box(0.25, 0.75, 3)}}}
	return c
}

// broad is a flat model of one region whose only layer, and what is cut from
// it, hold more than 65536 voxels.
func broad() stldiceCase {
	c := stldiceCase{MMPV: 1, Snap: true, Ext: [3]float64{300, 268, 1}, Dim: 300, Div: [3]int{1, 1, 1}}
	c.Models = []stlModel{
		{Solids: []core.Solid{{Kind: "box", Size: [3]float64{300, 268, 1}, Pos: [3]float64{150, 134, 0.5}}}},
		{Solids: []core.Solid{{Kind: "box", Size: [3]float64{280, 240, 1}, Pos: [3]float64{150, 140, 0.5}}}},
	}
	return c
}

// fine is a base of 12n² triangles and a few, and a cut of as many.
func fine(n, cut int) stldiceCase {
	c := stldiceCase{MMPV: 1, Ext: [3]float64{7, 6, 5}, Dim: 7, Div: [3]int{7, 1, 1}}
	c.Models = []stlModel{
		{Solids: []core.Solid{{Kind: "fine", N: n, Size: [3]float64{4, 6, 5}, Pos: [3]float64{2, 3, 2.5}}, {Kind: "box", Size: [3]float64{2, 5, 4}, Pos: [3]float64{6, 3.5, 2}}}},
		{Solids: []core.Solid{{Kind: "fine", N: cut, Size: [3]float64{3, 2, 7}, Pos: [3]float64{3.5, 3, 1}}, {Kind: "box", Size: [3]float64{2, 1, 2}, Pos: [3]float64{6, 3.5, 2}}}},
	}
	return c
}

// tall is a column of thousands of layers.
func tall(div int) stldiceCase {
	c := stldiceCase{MMPV: 0.5, Snap: true, Ext: [3]float64{2, 3, 4200}, Dim: 4200, Div: [3]int{1, 1, div}}
	c.Models = []stlModel{
		{Solids: []core.Solid{{Kind: "box", Size: [3]float64{2, 3, 4200}, Pos: [3]float64{1, 1.5, 2100}}}},
		{Solids: []core.Solid{{Kind: "box", Size: [3]float64{1, 3, 4000}, Pos: [3]float64{0.5, 1.5, 2150}}}},
	}
	return c
}

func lcm(a, b int) int {
	g, h := a, b
	for h != 0 {
		g, h = h, g%h
	}
	return a / g * b
}

// lattice is what a model is voxelized on.
type lattice struct {
	t    [3]float64
	mmpv float64
	n    [3]int // padded
}

func (l lattice) grid(nudge [3]float64) *binvox.BinVOX {
	d := max(l.n[0], l.n[1], l.n[2])
	return binvox.New(l.n[0], l.n[1], l.n[2], l.t[0]+nudge[0]*l.mmpv, l.t[1]+nudge[1]*l.mmpv, l.t[2]+nudge[2]*l.mmpv, float64(d)*l.mmpv, false)
}

// voxels is the voxelization of a surface, and stable tells whether a cell is
// the same under nudges far below a voxel.
func (l lattice) voxels(tris []core.Tri) (cells map[core.P]bool, stable func(core.P) bool, err error) {
	mesh := core.GLMesh(tris)
	b := l.grid([3]float64{})
	if err := b.Voxelize(mesh); err != nil {
		return nil, nil, err
	}
	cells = map[core.P]bool{}
	for k := range b.WhiteVoxels {
		cells[core.P{k.X, k.Y, k.Z}] = true
	}
	e := 1e-8 // or more if the coordinates have no more digits
	for i := range l.t {
		v := math.Abs(l.t[i]) + float64(l.n[i])*l.mmpv
		e = max(e, 8*(math.Nextafter(v, math.Inf(1))-v)/l.mmpv)
	}
	return cells, func(p core.P) bool {
		if p[2] < 0 || p[2] >= l.n[2] {
			return true
		}
		var on, off bool
		for i := 0; i < 27; i++ {
			b := l.grid([3]float64{float64(i%3-1) * e, float64(i/3%3-1) * e, float64(i/9-1) * e})
			if err := b.VoxelizeZ(mesh, p[2]); err != nil {
				return true
			}
			if _, ok := b.Get(p[0], p[1], p[2]); ok {
				on = true
			} else {
				off = true
			}
		}
		return !(on && off)
	}, nil
}

// baseLattice is the frame that the base and the options determine.
func (c stldiceCase) baseLattice() (l lattice, n [3]int) {
	var lo, hi [3]float64
	for i := range lo {
		lo[i], hi[i] = c.T[i], c.T[i]+c.Ext[i]*c.MMPV
	}
	if c.MBB == 0 {
		a, b := core.Bounds(c.tris(c.Models[0], c.Snap))
		lo, hi = a, b
	}
	scale := max(hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2])
	l.t, l.mmpv = lo, scale/float64(c.Dim)
	for i := range n {
		n[i] = int(math.Ceil((hi[i]-lo[i])/l.mmpv - 1e-6))
		l.n[i] = n[i] + c.Div[i] + 2
	}
	return l, n
}

// checkRegions compares the region files of one model with its voxelization.
func checkRegions(x *core.Ctx, what string, l lattice, n [3]int, tris []core.Tri, regions map[string]string) (map[core.P]bool, error) {
	want, stable, err := l.voxels(tris)
	if err != nil {
		return nil, core.Failf("%s: Voxelize: %v", what, err)
	}
	ref := core.NewGrid(l.n, l.t, l.mmpv*float64(max(l.n[0], l.n[1], l.n[2])))
	got := map[core.P]bool{}
	for name, b := range regions {
		g, short, err := core.DecodeBinvox([]byte(b))
		if err != nil || short {
			return nil, core.Failf("%s: %s is malformed: %v short=%v", what, name, err, short)
		}
		if len(g.Cells) == 0 {
			return nil, core.Failf("%s: %s is empty", what, name)
		}
		cells, err := worldCells(ref, g)
		if err != nil {
			return nil, core.Failf("%s: %s: %v", what, name, err)
		}
		for p := range cells {
			if got[p] {
				return nil, core.Failf("%s: cell %v is in two regions (%s is one)", what, p, name)
			}
			got[p] = true
		}
	}
	if len(regions) > 1 {
		x.NonTrivial()
	}
	// Beyond the box, regions may hold what lies in their rounded-up share.
	for p := range want {
		if p[0] < n[0] && p[1] < n[1] && p[2] < n[2] && !got[p] && stable(p) {
			return nil, core.Failf("%s: cell %v of the voxelization is in no region file (%d of %d cells are there; box of %v cells)", what, p, len(got), len(want), n)
		}
	}
	for p := range got {
		if !want[p] && stable(p) {
			return nil, core.Failf("%s: cell %v of the region files is not in the voxelization (box of %v cells)", what, p, n)
		}
	}
	return got, nil
}

// words splits a line as a shell does.
func words(line string) []string {
	var out []string
	var cur strings.Builder
	in, quote := false, rune(0)
	esc := false
	for _, r := range line {
		switch {
		case esc:
			cur.WriteRune(r)
			esc = false
		case r == '\\' && quote != '\'':
			in, esc = true, true
		case quote != 0:
			if r == quote {
				quote = 0
			} else {
				cur.WriteRune(r)
			}
		case r == '\'' || r == '"':
			in, quote = true, r
		case r == ' ' || r == '\t':
			if in {
				out = append(out, cur.String())
				cur.Reset()
			}
			in = false
		default:
			in = true
			cur.WriteRune(r)
		}
	}
	if in {
		out = append(out, cur.String())
	}
	return out
}

// word is s if a shell takes it as one word, and its quoted form otherwise.
func word(s string) string {
	if s != "" && !strings.ContainsAny(s, " \t\n!\"#$&'()*;<>?[\\]^`{|}~") {
		return s
	}
	return "'" + strings.ReplaceAll(s, "'", `'\''`) + "'"
}

func c18() *core.Prop {
	run := func(x *core.Ctx, c stldiceCase) error {
		l, n := c.baseLattice()
		args := options(dims, "-dim", fmt.Sprint(c.Dim), "-nx", fmt.Sprint(c.Div[0]), "-ny", fmt.Sprint(c.Div[1]), "-nz", fmt.Sprint(c.Div[2]))
		if c.Smooth > 0 {
			args = append(args, "-smooth", fmt.Sprint(c.Smooth))
		}
		if c.MBB > 0 {
			var hi [3]float64
			for i := range hi {
				hi[i] = c.T[i] + c.Ext[i]*c.MMPV
			}
			args = append(args, "-mbb", c.mbbFlag(c.T, hi))
		}
		put(x, "sub/keep", nil)
		if c.Name != "" {
			x.Label("names to quote")
		}
		var names []string
		var tris [][]core.Tri
		for i, m := range c.Models {
			tr := c.tris(m, c.MBB == 0 && c.Snap && i == 0)
			b := c.encode(m, tr)
			name := c.Dir + c.Name + c.file(i, "cut.stl")
			put(x, name, b)
			names = append(names, name)
			tris = append(tris, tr)
		}
		args = append(args, names...)
		before := files(x)
		what := fmt.Sprintf("stldice -dim %d -nx %d -ny %d -nz %d of a box of %v cells", c.Dim, c.Div[0], c.Div[1], c.Div[2], n)
		r := x.Tool(core.ToolOpt{}, "stldice", args...)
		if r.Crashed || r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		// The region files.
		regions := make([]map[string]string, len(names))
		for i := range regions {
			regions[i] = map[string]string{}
		}
		for name, b := range files(x) {
			if _, ok := before[name]; ok {
				continue
			}
			found := false
			for i := range names {
				if strings.HasPrefix(name, strings.TrimSuffix(names[i], ".stl")+"-") && strings.HasSuffix(name, ".binvox") {
					regions[i][name] = b
					found = true
				}
			}
			if !found {
				return core.Failf("%s writes %s", what, name)
			}
		}
		var left map[core.P]bool
		for i := range names {
			cells, err := checkRegions(x, what+": "+names[i], l, n, tris[i], regions[i])
			if err != nil {
				return err
			}
			if i == 0 {
				left = cells
				continue
			}
			cut := 0
			for p := range cells {
				if left[p] {
					delete(left, p)
					cut++
				}
			}
			if cut > 0 {
				x.Label("cut")
			}
		}
		if c.Div[0]*c.Div[1]*c.Div[2] > 1 && (n[0]%c.Div[0] != 0 || n[1]%c.Div[1] != 0 || n[2]%c.Div[2] != 0) {
			x.Label("size not a multiple")
		}
		// The script.
		lines := strings.Split(strings.TrimSpace(r.Stdout), "\n")
		out := ""
		for i := len(lines) - 1; i >= 0 && out == ""; i-- {
			f := words(lines[i])
			for k := range f {
				if f[0] == "merge-stl" && f[k] == "-prefix" && k+1 < len(f) {
					out = f[k+1] + ".stl"
					x.Label("merged")
				}
				if f[0] == "voxcut" && f[k] == "-ostl" && k+1 < len(f) {
					out = f[k+1]
				}
			}
		}
		if len(regions[0]) > 0 && out == "" {
			return core.Failf("%s: the script makes no STL file:\n%s", what, r.Stdout)
		}
		check := func(what string) error {
			if out == "" {
				return nil
			}
			put(x, "script.sh", []byte(r.Stdout))
			s := x.Tool(core.ToolOpt{}, "/bin/bash", "script.sh")
			if s.Crashed || strings.Contains(s.Stderr, "goroutine ") || strings.Contains(s.Stderr, "command not found") {
				return core.Failf("%s: the script does not run: %s", what, core.Tail(s.Stderr))
			}
			b := get(x, out)
			if len(left) == 0 {
				if b != nil {
					if tr, err := core.DecodeSTL(b); err != nil || len(tr) > 0 {
						return core.Failf("%s: the script writes %s (%v) although nothing is left", what, out, err)
					}
				}
				x.Label("nothing left")
				return nil
			}
			if b == nil {
				return core.Failf("%s: the script does not write %s: %s", what, out, core.Tail(s.Stderr))
			}
			got, err := core.DecodeSTL(b)
			if err != nil {
				return core.Failf("%s: %s: %v", what, out, err)
			}
			if c.Far { // which a binary file cannot hold
				x.Label("far away")
				return nil
			}
			if err := windings(core.ToVoxels(got, l.t, l.mmpv), left); err != nil {
				return core.Failf("%s: %s made by the script: %v", what, out, err)
			}
			return nil
		}
		if err := check(what); err != nil {
			return err
		}
		if !c.Twice {
			return nil
		}
		// A second run completes an interrupted first one.
		x.Label("second run")
		var all []string
		whole := map[string]string{}
		for _, m := range regions {
			all = append(all, keys(m)...)
			for k, v := range m {
				whole[k] = v
			}
		}
		for _, k := range c.Redo {
			if len(all) > 0 {
				os.Remove(filepath.Join(x.Dir(), all[k%len(all)]))
			}
		}
		r2 := x.Tool(core.ToolOpt{}, "stldice", args...)
		if r2.Crashed || r2.Code != 0 {
			return core.Failf("%s fails with status %d when run again: %s", what, r2.Code, core.Tail(r2.Stderr))
		}
		if r2.Stdout != r.Stdout {
			return core.Failf("%s prints another script when run again: %q, first %q", what, r2.Stdout, r.Stdout)
		}
		now := files(x)
		for k, v := range whole {
			if now[k] != v {
				return core.Failf("%s: %s differs after a second run", what, k)
			}
		}
		return check(what + ", run again")
	}
	names := func(bool) (out []stldiceCase) {
		box := func(lo, hi float64) stlModel {
			s := core.Solid{Kind: "box"}
			for i := range s.Size {
				s.Size[i], s.Pos[i] = hi-lo, (lo+hi)/2
			}
			return stlModel{Solids: []core.Solid{s}}
		}
		for i, name := range core.Names() {
			c := stldiceCase{MMPV: 1, Snap: true, Ext: [3]float64{4, 4, 4}, Dim: 4, Div: [3]int{2, 1, 1}, Name: name, Models: []stlModel{box(0, 4)}}
			if i%2 == 0 {
				c.Models = append(c.Models, box(1, 3))
			}
			out = append(out, c)
		}
		return out
	}
	defaults := func(bool) []stldiceCase { return []stldiceCase{plain(8192), plain(64), broad(), tall(1), tall(2), fine(3, 80), fine(80, 4)} }
	crowd := func(t *rapid.T) stldiceCase {
		c := genStldice(t)
		genCrowd(t, &c, []int{4, 8, 9, 12, 16, 17, 31, 33, 65, 101})
		return c
	}
	return &core.Prop{
		ID:          "C18",
		Rule:        "base and up to two cut models (`crowd`: up to 101) (scenes as in C06, a tenth of the cuts without triangles, binary or text STL files in several spellings, a sixth of them far away, with more digits than single precision has) diced with -dim up to about 24 into up to 27 regions, or (`many`) up to 144, or 130 along one axis, models of up to 77000 triangles, the box computed or given in several spellings and of any fractional size; region files are compared with the in-process voxelization of the whole lattice, the printed script is run with the repository's tools, and a third of the cases dice again after losing some region files; file names and prefixes of letters, blanks, shell, pattern, format and markup characters, each of them at the start of a name and inside; non-trivial: more than one region of a model is non-empty",
		Assumptions: []string{"correctness of voxelization itself is decided by C06 and C07", "a cell that changes when the lattice is nudged by 1e-8 voxels is decided by rounding and is not compared", "beyond the box, a region may hold cells of its rounded-up share that belong to the voxelization", "file names contain no line breaks"},
		Tools:       []string{"./cmd/stldice", "./cmd/voxcut", "./cmd/merge-stl"},
		Arms:        []*core.Arm{core.NewArm("tool", 1400, 15000, genStldice, run), core.NewArm("many", 42, 1000, genManyRegions, run), core.NewArm("crowd", 16, 300, crowd, run), core.Fixed(core.NewArm("names", 0, 0, nil, run), names), core.Fixed(core.NewArm("defaults", 0, 0, nil, run), defaults)},
	}
}
