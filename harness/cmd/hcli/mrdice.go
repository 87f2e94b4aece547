package main

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

var layerImage = regexp.MustCompile(`^out-(\d+)-(\d+)-(\d+)-(\d+)-(\d+)\.png$`)

// genTall makes a case of one with layer numbers and coordinates beyond one
// byte, and few voxels per layer.
func genTall(t *rapid.T, c *stldiceCase) {
	for i := range c.Div {
		c.Div[i] = rapid.IntRange(1, 2).Draw(t, "bigdiv")
	}
	long := rapid.IntRange(0, 2).Draw(t, "biglong")
	c.Dim = rapid.SampledFrom([]int{127, 128, 129, 200, 255, 256, 257, 300}).Draw(t, "bigdim")
	for i := range c.Ext {
		c.Ext[i] = float64(rapid.IntRange(2, 6).Draw(t, "bigext"))
	}
	c.Ext[long] = float64(c.Dim)
	// Boxes of the whole length, and others along it.
	c.Snap, c.MMPV = true, 0.5
	box := func(whole bool) core.Solid {
		o := core.Solid{Kind: "box"}
		for i := range c.Ext {
			size := rapid.IntRange(1, 4*int(c.Ext[i])).Draw(t, "size")
			if whole && i == long {
				size = 4 * int(c.Ext[i])
			}
			at := rapid.IntRange(0, 4*int(c.Ext[i])-size).Draw(t, "at")
			o.Size[i], o.Pos[i] = float64(size)/4, float64(at)/4+float64(size)/8
		}
		return o
	}
	for i := range c.Models {
		c.Models[i].Solids = []core.Solid{box(i == 0)}
		for k := rapid.IntRange(0, 2).Draw(t, "more"); k > 0; k-- {
			c.Models[i].Solids = append(c.Models[i].Solids, box(false))
		}
	}
}

func c28() *core.Prop {
	gen := func(big bool) func(*rapid.T) stldiceCase {
		return func(t *rapid.T) stldiceCase {
			c := genStldice(t)
			c.MBB, c.Twice, c.Redo, c.Old = 0, false, nil, core.GenOld(t)
			if big {
				genTall(t, &c)
			}
			return c
		}
	}
	run := func(x *core.Ctx, c stldiceCase) error {
		l, n := c.baseLattice()
		var names []string
		var base map[core.P]bool
		cuts := map[core.P]bool{}
		var stable []func(core.P) bool
		for i, m := range c.Models {
			tr := c.tris(m, c.Snap && i == 0)
			b := c.encode(m, tr)
			name := c.Dir + c.file(i, "cut.stl")
			put(x, name, b)
			names = append(names, name)
			cells, st, err := l.voxels(tr)
			if err != nil {
				return core.Failf("Voxelize: %v", err)
			}
			stable = append(stable, st)
			if i == 0 {
				base = cells
				continue
			}
			for p := range cells {
				cuts[p] = true
			}
		}
		settled := func(p core.P) bool {
			for _, st := range stable {
				if !st(p) {
					return false
				}
			}
			return true
		}
		before := files(x)
		if c.Old > 0 { // images of an earlier run
			for z := 0; z < n[2]; z++ {
				core.WriteOld(filepath.Join(x.Dir(), fmt.Sprintf("out-%d-%d-%d-%d-%d.png", c.Dim, c.Div[0], c.Div[1], c.Div[2], z)), c.Old)
			}
		}
		what := fmt.Sprintf("stldice-mr -dim %d -nx %d -ny %d -nz %d of a box of %v cells with %d cuts", c.Dim, c.Div[0], c.Div[1], c.Div[2], n, len(c.Models)-1)
		args := options(dims, "-dim", fmt.Sprint(c.Dim), "-nx", fmt.Sprint(c.Div[0]), "-ny", fmt.Sprint(c.Div[1]), "-nz", fmt.Sprint(c.Div[2]))
		r := x.Tool(core.ToolOpt{}, "stldice-mr", append(args, "-stl", strings.Join(names, ","))...)
		if r.Crashed || r.Code != 0 || strings.Contains(r.Stderr, "\ngoroutine ") {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		layers := map[int]func(x, y int) (white, black bool){}
		for name, b := range files(x) {
			if _, ok := before[name]; ok || c.Old > 0 && b == string(core.OldBytes(c.Old)) {
				continue
			}
			m := layerImage.FindStringSubmatch(name)
			if m == nil {
				return core.Failf("%s writes %s", what, name)
			}
			z, _ := strconv.Atoi(m[5])
			if want := fmt.Sprintf("out-%d-%d-%d-%d-%d.png", c.Dim, c.Div[0], c.Div[1], c.Div[2], z); name != want {
				return core.Failf("%s writes %s", what, name)
			}
			img, err := png.Decode(bytes.NewReader([]byte(b)))
			if err != nil {
				return core.Failf("%s: %s: %v", what, name, err)
			}
			if s := img.Bounds().Size(); s.X != c.Dim || s.Y != c.Dim {
				return core.Failf("%s: %s has size %v", what, name, s)
			}
			if im, ok := img.(*image.NRGBA); ok { // image.At for every pixel is slow
				layers[z] = func(x, y int) (white, black bool) {
					p := im.Pix[im.PixOffset(x, y):]
					return p[0] == 0xff && p[1] == 0xff && p[2] == 0xff && p[3] == 0xff, p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 0xff
				}
				continue
			}
			layers[z] = func(x, y int) (white, black bool) {
				cr, cg, cb, ca := img.At(x, y).RGBA()
				return cr == 0xffff && cg == 0xffff && cb == 0xffff && ca == 0xffff, cr == 0 && cg == 0 && cb == 0 && ca == 0xffff
			}
		}
		for z, at := range layers {
			for yi := 0; yi < c.Dim; yi++ {
				for xi := 0; xi < c.Dim; xi++ {
					p := core.P{xi, yi, z}
					white, black := at(xi, yi)
					if !white && !black {
						return core.Failf("%s: layer %d: pixel (%d,%d) is neither black nor white", what, z, xi, yi)
					}
					if black && (xi >= l.n[0] || yi >= l.n[1]) {
						continue
					}
					in := xi < n[0] && yi < n[1] && z < n[2]
					want := base[p] && !cuts[p]
					if white && !want && settled(p) {
						return core.Failf("%s: layer %d: pixel (%d,%d) is white (base=%v cut=%v)", what, z, xi, yi, base[p], cuts[p])
					}
					if in && black && want && settled(p) {
						return core.Failf("%s: layer %d: pixel (%d,%d) is black at an uncut base voxel", what, z, xi, yi)
					}
				}
			}
		}
		cut := false
		for _, cells := range []map[core.P]bool{base, cuts} {
			for p := range cells {
				if p[0] >= n[0] || p[1] >= n[1] || p[2] >= n[2] {
					continue
				}
				if layers[p[2]] == nil && settled(p) {
					return core.Failf("%s: no image for layer %d, which has voxel %v (base=%v cut=%v); there are %d images", what, p[2], p, base[p], cuts[p], len(layers))
				}
				cut = cut || base[p] && cuts[p]
			}
		}
		if len(base) > 0 {
			x.NonTrivial()
		}
		if cut {
			x.Label("cut")
		}
		if len(names) > 2 {
			x.Label("several cuts")
		}
		if c.Div[0]*c.Div[1]*c.Div[2] > 1 {
			x.Label("several regions")
			if n[0]%c.Div[0] != 0 || n[1]%c.Div[1] != 0 || n[2]%c.Div[2] != 0 {
				x.Label("size not a multiple")
			}
		}
		return nil
	}
	// Meshes of many triangles.
	many := func(thorough bool) (out []stldiceCase) {
		res := []int{75, 120}
		if thorough {
			res = append(res, 105, 148, 182, 250)
		}
		for i, n := range res {
			c := stldiceCase{Dim: 9 + i, Div: [3]int{1 + i%2, 2, 1}, Snap: true, MMPV: 1, Ext: [3]float64{7, 6, 5}}
			c.Models = []stlModel{
				{Solids: []core.Solid{{Kind: "fine", N: n, Size: [3]float64{4, 6, 5}, Pos: [3]float64{2, 3, 2.5}}, {Kind: "box", Size: [3]float64{2, 5, 4}, Pos: [3]float64{6, 3.5, 2}}}},
				{Solids: []core.Solid{{Kind: "fine", N: n/2 + 40*i, Size: [3]float64{3, 2, 7}, Pos: [3]float64{3.5, 3, 1}}, {Kind: "box", Size: [3]float64{2, 1, 2}, Pos: [3]float64{6, 3.5, 2}}}},
			}
			out = append(out, c)
		}
		return out
	}
	crowd := func(t *rapid.T) stldiceCase {
		c := gen(false)(t)
		genCrowd(t, &c, []int{4, 8, 9, 16, 17, 33, 65, 101, 130, 257})
		return c
	}
	return &core.Prop{
		ID:   "C28",
		Rule: "boxes, solids and up to two cuts (`crowd`: up to 257), some without triangles, on a lattice, up to 27 regions, resolutions up to 300, dimensions not divisible by the divisions, ASCII (a sixth of them far away, with more digits than single precision has) and binary files, fixed cases with up to 86400 (thorough: 375000) triangles; non-trivial: the base has at least one voxel",
		Assumptions: []string{
			"voxels are those of binvox.Voxelize on the whole lattice (decided by C06 and C07); a voxel whose state changes under a shift of 1e-8 voxel is left open",
			"cells of the rounded-up share of a region beyond the base's box are left open",
		},
		Tools: []string{"./cmd/stldice-mr"},
		Arms: []*core.Arm{
			core.NewArm("layers", 200, 5000, gen(false), run),
			core.NewArm("tall", 37, 800, gen(true), run),
			core.NewArm("crowd", 24, 400, crowd, run),
			core.Fixed(core.NewArm("defaults", 0, 0, nil, run), func(thorough bool) []stldiceCase {
				if thorough {
					return []stldiceCase{plain(8192), plain(64), broad()}
				}
				return []stldiceCase{plain(64), broad()}
			}),
			core.Fixed(core.NewArm("many", 0, 0, nil, run), many),
		},
	}
}
