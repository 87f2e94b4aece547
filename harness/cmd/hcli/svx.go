package main

import (
	"archive/zip"
	"bytes"
	"cmp"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

type svxArchive struct {
	N        [3]int  `json:"n"`
	Size     float64 `json:"size"` // voxel size in metres
	SizeFmt  string  `json:"sizeFmt"`
	Pattern  string  `json:"pattern"`
	Runs     []int   `json:"runs"`   // bright voxels
	Levels   []int   `json:"levels"` // grey levels used (cycled): distance from the threshold
	Image    string  `json:"image"`  // gray, gray16, rgba, paletted
	Manifest int     `json:"manifest"`
	Order    []int   `json:"order"` // how far each slice is moved in the archive
	Channels int     `json:"channels"`
	Store    bool    `json:"store,omitempty"`
	Bits     int     `json:"bits,omitempty"` // as the channels claim (0: 8)
	Pad      int     `json:"pad,omitempty"`  // bytes of metadata
	Raw      bool    `json:"raw,omitempty"`  // pictures are not compressed
	Bad      string  `json:"bad,omitempty"`
	Pos      int     `json:"pos,omitempty"`
}

type svxCase struct {
	Archives []svxArchive `json:"archives"`
	Old      int          `json:"old,omitempty"`  // bytes in the outputs beforehand
	Name     string       `json:"name,omitempty"` // start of the names of the files
}

func (a svxArchive) grid() *core.Grid {
	n := a.N
	return core.Model{N: n, Scale: a.Size * 1000 * float64(max(n[0], n[1], n[2])), Runs: a.Runs}.Grid()
}

// Colours that are far from half bright by any weighting of the channels.
var (
	bright = []color.NRGBA{{255, 120, 255, 255}, {100, 255, 100, 255}, {255, 255, 0, 255}, {0, 255, 255, 255}}
	dark   = []color.NRGBA{{255, 60, 0, 255}, {0, 60, 255, 255}, {0, 150, 0, 255}, {255, 0, 0, 255}, {0, 0, 255, 255}}
)

// img draws slice z.
func (a svxArchive) img(g *core.Grid, z int) []byte {
	r := image.Rect(0, 0, a.N[0], a.N[1])
	var im interface {
		image.Image
		Set(x, y int, c color.Color)
	}
	switch a.Image {
	case "gray16":
		im = image.NewGray16(r)
	case "rgba", "colour":
		im = image.NewNRGBA(r)
	case "bits":
		im = image.NewPaletted(r, color.Palette{color.Black, color.White})
	case "paletted":
		var p color.Palette
		for i := 0; i < 256; i++ {
			p = append(p, color.Gray{Y: uint8(i)})
		}
		im = image.NewPaletted(r, p)
	default:
		im = image.NewGray(r)
	}
	for x := 0; x < a.N[0]; x++ {
		for y := 0; y < a.N[1]; y++ {
			d := 127
			if len(a.Levels) > 0 {
				d = a.Levels[(x+3*y+7*z)%len(a.Levels)]
			}
			v := 127 - d
			if g.Cells[core.P{x, y, z}] {
				v = 128 + d
			}
			if a.Image == "gray16" {
				lo := uint16(0)
				if v < 128 {
					lo = 0xff
				}
				im.Set(x, y, color.Gray16{Y: uint16(v)<<8 | lo})
			} else if a.Image == "colour" {
				list := dark
				if v >= 128 {
					list = bright
				}
				im.Set(x, y, list[(d+x+y+z)%len(list)])
			} else {
				im.Set(x, y, color.Gray{Y: uint8(v)})
			}
		}
	}
	var b bytes.Buffer
	enc := png.Encoder{}
	if a.Raw {
		enc.CompressionLevel = png.NoCompression
	}
	if err := enc.Encode(&b, im); err != nil {
		core.Infra("%v", err)
	}
	return b.Bytes()
}

func (a svxArchive) manifest() string {
	var sb strings.Builder
	sb.WriteString("<?xml version=\"1.0\"?>\n")
	fmt.Fprintf(&sb, `<grid version="1.0" gridSizeX="%d" gridSizeY="%d" gridSizeZ="%d" voxelSize="%s" subvoxelBits="8" originX="0" originY="0" originZ="0" slicesOrientation="Z">`+"\n", a.N[0], a.N[1], a.N[2], fmt.Sprintf(a.SizeFmt, a.Size))
	density := fmt.Sprintf(`  <channel type="%s" slices="%s" bits="%d"/>`+"\n", []string{"DENSITY", "density", "Density"}[a.Channels%3], a.Pattern, cmp.Or(a.Bits, 8))
	material := `  <channel type="MATERIAL" slices="mat/%04d.png" bits="8"/>` + "\n"
	sb.WriteString(" <channels>\n")
	if a.Bad == "nochannel" {
	} else if a.Bad == "nodensity" {
		sb.WriteString(material)
	} else {
		if a.Channels&4 != 0 {
			sb.WriteString(material)
		}
		sb.WriteString(density)
		if a.Channels&8 != 0 {
			sb.WriteString(material)
		}
	}
	sb.WriteString(" </channels>\n <materials><material id=\"1\" urn=\"urn:shapeways:materials/1\"/></materials>\n <metadata><entry key=\"author\" value=\"" + strings.Repeat("x", 1+a.Pad) + "\"/></metadata>\n</grid>\n")
	s := sb.String()
	if a.Bad == "xml" {
		s = s[:len(s)*2/3]
	}
	return s
}

func (a svxArchive) bytes() []byte {
	g := a.grid()
	type entry struct {
		name string
		data []byte
	}
	var es []entry
	for z := 0; z < a.N[2]; z++ {
		es = append(es, entry{fmt.Sprintf(a.Pattern, z), a.img(g, z)})
	}
	for i, d := range a.Order {
		if i < len(es) {
			j := (i + d) % len(es)
			es[i], es[j] = es[j], es[i]
		}
	}
	k := a.Pos % len(es)
	switch a.Bad {
	case "name":
		es[k].name = []string{"x" + es[k].name, es[k].name + ".bak", "thumbs.db", es[k].name[:len(es[k].name)-4] + ".jpg"}[a.Pos%4]
	case "png":
		es[k].data = []byte("GIF89a not a png")
	case "cutpng":
		es[k].data = es[k].data[:len(es[k].data)/2]
	case "emptypng":
		es[k].data = nil
	}
	if a.Bad != "nomanifest" {
		m := a.Manifest % (len(es) + 1)
		es = append(es[:m], append([]entry{{"manifest.xml", []byte(a.manifest())}}, es[m:]...)...)
	}
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, e := range es {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if a.Store {
			h.Method = zip.Store
		}
		f, err := w.CreateHeader(h)
		if err == nil {
			_, err = f.Write(e.data)
		}
		if err != nil {
			core.Infra("%v", err)
		}
	}
	if err := w.Close(); err != nil {
		core.Infra("%v", err)
	}
	out := b.Bytes()
	switch a.Bad {
	case "notzip":
		return []byte("#binvox 1\n")
	case "cutzip":
		return out[:len(out)-20]
	}
	return out
}

func genSVX(t *rapid.T) svxCase {
	c := svxCase{Old: core.GenOld(t)}
	if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
		c.Name = core.GenName(t, "")
	}
	for k := rapid.IntRange(1, 3).Draw(t, "archives"); k > 0; k-- {
		a := svxArchive{}
		for i := range a.N {
			a.N[i] = rapid.IntRange(1, 9).Draw(t, "n")
		}
		if rapid.IntRange(0, 7).Draw(t, "long") == 0 {
			a.N[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.IntRange(10, 130).Draw(t, "many")
		}
		a.Size = rapid.SampledFrom([]float64{0.0005, 0.001, 2.5e-05, 0.0001, 0.25, 1, 3.3e-4, 1.0 / 3000}).Draw(t, "size")
		a.SizeFmt = rapid.SampledFrom([]string{"%v", "%.17g", "%E", "%e"}).Draw(t, "sizeFmt")
		a.Pattern = rapid.SampledFrom([]string{"slice%04d.png", "density/slice%04d.png", "out-8-2-2-1-%04d.png", "s%d.png", "a1-%03d.png", "0%05d.png", "x/y z/%02d.PNG"}).Draw(t, "pattern")
		total := a.N[0] * a.N[1] * a.N[2]
		if total < 500 && rapid.Bool().Draw(t, "bits") {
			a.Runs = core.GenBits(t, total)
		} else {
			a.Runs = core.GenRuns(t, total)
		}
		a.Levels = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 127, 2, 60}), 0, 5).Draw(t, "levels")
		a.Image = rapid.SampledFrom([]string{"gray", "gray16", "rgba", "paletted", "colour", "bits"}).Draw(t, "image")
		a.Manifest = rapid.IntRange(0, 200).Draw(t, "manifest")
		a.Order = rapid.SliceOfN(rapid.IntRange(0, 20), 0, 6).Draw(t, "order")
		a.Channels = rapid.IntRange(0, 15).Draw(t, "channels")
		a.Store = rapid.IntRange(0, 3).Draw(t, "store") == 0
		if rapid.IntRange(0, 3).Draw(t, "bits") == 0 {
			a.Bits = rapid.SampledFrom([]int{1, 2, 4, 16, 32}).Draw(t, "depth")
		}
		if rapid.IntRange(0, 7).Draw(t, "padded") == 0 {
			a.Pad = rapid.SampledFrom([]int{300, 5000, 70000, 1 << 20}).Draw(t, "pad")
		}
		a.Raw = rapid.IntRange(0, 7).Draw(t, "raw") == 0
		if rapid.IntRange(0, 5).Draw(t, "bad") == 0 {
			a.Bad = rapid.SampledFrom([]string{"nomanifest", "xml", "nochannel", "nodensity", "name", "png", "cutpng", "emptypng", "notzip", "cutzip", "missing"}).Draw(t, "badk")
			a.Pos = rapid.IntRange(0, 300).Draw(t, "pos")
		}
		c.Archives = append(c.Archives, a)
	}
	return c
}

// genManySVX names many archives in one run.
func genManySVX(t *rapid.T) svxCase {
	c := genSVX(t)
	n := rapid.SampledFrom([]int{5, 9, 17, 33, 65, 101, 130}).Draw(t, "many")
	for len(c.Archives) < n {
		a := c.Archives[rapid.IntRange(0, min(9, len(c.Archives)-1)).Draw(t, "like")]
		for i := range a.N {
			a.N[i] = rapid.IntRange(1, 3).Draw(t, "n")
		}
		a.Runs = core.GenRuns(t, a.N[0]*a.N[1]*a.N[2])
		if rapid.IntRange(0, 2*n).Draw(t, "bad") > 0 {
			a.Bad = ""
		}
		c.Archives = append(c.Archives, a)
	}
	return c
}

// genLongSVX is an archive with indices beyond one byte.
func genLongSVX(t *rapid.T) svxCase {
	c := genSVX(t)
	a := &c.Archives[0]
	axis := rapid.IntRange(0, 2).Draw(t, "longaxis")
	for i := range a.N {
		a.N[i] = rapid.IntRange(1, 4).Draw(t, "n")
	}
	a.N[axis] = rapid.SampledFrom([]int{255, 256, 257, 258, 300, 400, 513}).Draw(t, "long")
	if axis == 2 {
		a.N[2] = min(a.N[2], 300)
	}
	// Voxels at both ends, so that wrapped indices collide or leave.
	total := a.N[0] * a.N[1] * a.N[2]
	a.Runs = core.GenRuns(t, total)
	if rapid.Bool().Draw(t, "ends") {
		a.Runs = []int{0, 1 + total/97, total / 2, 2, total / 7, 1 + total/31}
	}
	return c
}

// thousands are archives of more slices than the digits of their names.
func thousands(thorough bool) (out []svxCase) {
	for i, n := range []int{999, 1203, 10007, 70001}[:3+btoi(thorough)] {
		a := svxArchive{N: [3]int{2, 1, n}, Size: 0.001, SizeFmt: "%v", Pattern: []string{"s%d.png", "slice%04d.png", "a1-%03d.png", "x/%04d.png"}[i], Manifest: n / 2 * (i & 1)}
		a.Runs = []int{1, n/3*2 - 1, n / 3, 3, n / 6, 2 * n}
		out = append(out, svxCase{Archives: []svxArchive{a}})
	}
	return out
}

// broadSVX are archives of large pictures.
func broadSVX(thorough bool) (out []svxCase) {
	for i, n := range [][3]int{{1203, 2, 2}, {2, 5003, 1}, {70001, 1, 1}, {1, 70001, 1}, {1300, 1100, 2}, {3000, 2500, 1}}[:5+btoi(thorough)] {
		a := svxArchive{N: n, Size: 0.001, SizeFmt: "%v", Pattern: "slice%04d.png", Image: []string{"gray", "paletted"}[i%2], Levels: []int{0, 60, 127, 5, 33}, Raw: i >= 4, Store: i >= 4}
		total := n[0] * n[1] * n[2]
		a.Runs = []int{total / 9, 3, total / 7, 40, total / 3, 2, total - total/9 - total/7 - total/3 - 50, 5}
		out = append(out, svxCase{Archives: []svxArchive{a}})
	}
	return out
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c21() *core.Prop {
	run := func(x *core.Ctx, c svxCase) error {
		var args []string
		bad := -1
		for i, a := range c.Archives {
			name := fmt.Sprintf("%sm%d.svx", c.Name, i)
			if a.Bad != "missing" {
				put(x, name, a.bytes())
			}
			core.WriteOld(filepath.Join(x.Dir(), fmt.Sprintf("%sm%d.stl", c.Name, i)), c.Old)
			args = append(args, name)
			if a.Bad != "" && bad < 0 {
				bad = i
				x.Label("bad: %s", a.Bad)
			}
		}
		r := x.Tool(core.ToolOpt{}, "svx2stl", args...)
		what := fmt.Sprintf("svx2stl on %d archives", len(args))
		if r.Crashed {
			return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
		}
		if bad >= 0 {
			x.NonTrivial()
			if r.Code == 0 {
				return core.Failf("%s reports success although archive %d is unusable (%s)", what, bad, c.Archives[bad].Bad)
			}
		} else if r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		for i, a := range c.Archives {
			b := get(x, fmt.Sprintf("%sm%d.stl", c.Name, i))
			if c.Old > 0 && bytes.Equal(b, core.OldBytes(c.Old)) {
				b = nil // as it was
			}
			if a.Bad != "" {
				if b != nil {
					return core.Failf("%s writes m%d.stl although the archive is unusable (%s)", what, i, a.Bad)
				}
				continue
			}
			if b == nil && bad >= 0 { // stopped at the unusable one
				continue
			}
			g := a.grid()
			if b == nil && len(g.Cells) == 0 {
				continue
			}
			tris, err := core.DecodeSTL(b)
			if err != nil {
				return core.Failf("%s: m%d.stl: %v", what, i, err)
			}
			vox := core.ToVoxels(tris, g.T, a.Size*1000)
			if err := core.ClosedMesh(vox, 2, 1e-3); err != nil {
				return core.Failf("%s: m%d.stl (%v voxels of %v m): %v", what, i, a.N, a.Size, err)
			}
			if err := windings(vox, g.Cells); err != nil {
				return core.Failf("%s: m%d.stl (%v voxels of %v m): %v", what, i, a.N, a.Size, err)
			}
			if len(g.Cells) > 0 && len(g.Cells) < g.Total() {
				x.NonTrivial()
				x.Label("%s", a.Image)
			}
		}
		return nil
	}
	return &core.Prop{
		ID:          "C21",
		Rule:        "one to three (`many`: up to 130) archives per run with grids up to 9 (sometimes 130, in the arm 'long' up to 513) per axis, fixed archives of up to 10007 (thorough: 70001) slices and of pictures of up to 70001 pixels a side or a few MB, manifests of up to 1 MB, channels that claim other depths, voxel sizes and spellings, seven naming patterns, grey, 16-bit, RGBA, paletted and 1-bit images with levels just around the threshold, or clearly bright and dark colours, entries in any order, extra channels, files with unusual names; or unusable in one of eleven ways; non-trivial: some but not all voxels are bright, or an archive is unusable",
		Assumptions: []string{"images have the size of the grid, are opaque, coloured ones far from half bright, slices are numbered from 0, and the model starts at the origin"},
		Tools:       []string{"./cmd/svx2stl"},
		Arms:        []*core.Arm{core.NewArm("tool", 3000, 30000, genSVX, run), core.NewArm("long", 80, 1000, genLongSVX, run), core.Fixed(core.NewArm("thousands", 0, 0, nil, run), thousands), core.Fixed(core.NewArm("broad", 0, 0, nil, run), broadSVX), core.NewArm("many", 48, 600, genManySVX, run)},
	}
}
