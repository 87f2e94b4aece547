// hstl holds the checks of STL merging. It is built with the race detector.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"time"

	gl "github.com/fogleman/fauxgl"
	"github.com/gmlewis/stldice/v4/stl"
	"pgregory.net/rapid"
	"verif/harness/core"
)

func main() { core.Main(c19()) }

type stlFile struct {
	Tris  int    `json:"tris"`
	From  int    `json:"from"`            // index of the first triangle, so that files may share some
	ASCII bool   `json:"ascii,omitempty"` // text rather than binary
	Solid bool   `json:"solid,omitempty"` // a binary header that starts like a text file
	Bad   string `json:"bad,omitempty"`   // missing, dir, cut, vertices
	Cut   int    `json:"cut,omitempty"`   // permille
}

type mergeCase struct {
	Files   []stlFile `json:"files"`
	Order   []int     `json:"order"` // indices of files, possibly repeated
	Workers int       `json:"workers"`
	Many    int       `json:"many,omitempty"` // further files of 0 to 2 triangles, at the end of the order
}

// all returns all files and their order.
func (c mergeCase) all() ([]stlFile, []int) {
	files, order := append([]stlFile(nil), c.Files...), append([]int(nil), c.Order...)
	for i := 0; i < c.Many; i++ {
		order = append(order, len(files))
		files = append(files, stlFile{Tris: (i*i + i + 1) % 3, From: 500000 + 2*i, ASCII: i%7 == 0})
	}
	return files, order
}

// tri is the i-th of an endless list of different triangles.
func tri(i int) core.Tri {
	x := float64(i)
	return core.Tri{{x, 0.1 * x, 1}, {x + 1, -x, 2.5 + x/3}, {x, x + 1, -7}}
}

func (f stlFile) tris() []core.Tri {
	out := make([]core.Tri, f.Tris)
	for i := range out {
		out[i] = tri(f.From + i)
	}
	return out
}

// store writes the file, spoilt if so requested.
func (f stlFile) store(path string) {
	if f.Bad == "missing" {
		return
	}
	if f.Bad == "dir" {
		if err := os.Mkdir(path, 0o755); err != nil {
			core.Infra("%v", err)
		}
		return
	}
	var b []byte
	if f.ASCII || f.Bad == "vertices" || f.Bad == "asciicut" || f.Bad == "number" {
		b = core.EncodeASCIISTL(f.tris())
		if f.Tris == 0 { // the reader wants at least 84 bytes
			b = append([]byte("solid "+string(bytes.Repeat([]byte("x"), 90))+"\n"), b[len("solid x\n"):]...)
		}
		if f.Bad == "" {
			b = core.RespellASCII(b, f.Tris*7+f.From)
		}
		if f.Bad == "asciicut" { // also between facets, with the header that the reader wants
			b = append(bytes.Repeat([]byte("\n"), 84), core.CutASCII(b, bytes.LastIndex(b, []byte("endsolid"))*f.Cut/999)...)
		}
		if f.Bad == "number" {
			i := bytes.Index(b, []byte("vertex "))
			for k := f.Cut % (3 * f.Tris); k > 0; k-- {
				i += 1 + bytes.Index(b[i+1:], []byte("vertex "))
			}
			b = append(b[:i+7:i+7], append([]byte([]string{"x ", "1e999 ", "1.2.3 ", "--1 ", "0x ", "1,5 ", ""}[f.Cut%7]), b[i+7+bytes.IndexByte(b[i+7:], ' ')+1:]...)...)
		}
		if f.Bad == "vertices" { // end in the middle of a facet
			n := 1 + f.Cut%(3*f.Tris)
			if n%3 == 0 {
				n--
			}
			i := 0
			for k := 0; k < n; k++ {
				i += bytes.Index(b[i:], []byte("vertex")) + 1
			}
			b = b[:i+bytes.IndexByte(b[i:], '\n')+1]
			b = append(bytes.Repeat([]byte(" "), 84), b...)
		}
	} else {
		b = core.EncodeSTL(f.tris())
		if f.Solid {
			copy(b, "solid binary")
		}
		if f.Bad == "longer" { // neither this nor text
			b = append(b, bytes.Repeat([]byte{' ', '\n', 0, 'x'}, 1+f.Cut/4)[:1+f.Cut]...)
		}
		if f.Bad == "cut" {
			b = b[:len(b)*f.Cut/1000]
		}
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		core.Infra("%v", err)
	}
}

func genFiles(t *rapid.T, max int) []stlFile {
	var out []stlFile
	for i := rapid.IntRange(0, max).Draw(t, "files"); i > 0; i-- {
		f := stlFile{From: 1000 * len(out)}
		switch rapid.IntRange(0, 3).Draw(t, "size") {
		case 0:
			f.Tris = rapid.IntRange(0, 2).Draw(t, "n")
		case 1:
			f.Tris = rapid.IntRange(3, 40).Draw(t, "n")
		case 2:
			f.Tris = rapid.IntRange(1, 400).Draw(t, "n")
		default:
			f.Tris = 12
		}
		if rapid.IntRange(0, 4).Draw(t, "shared") == 0 {
			f.From = rapid.IntRange(0, 20).Draw(t, "from")
		}
		f.ASCII = rapid.IntRange(0, 3).Draw(t, "ascii") == 0
		f.Solid = !f.ASCII && rapid.IntRange(0, 5).Draw(t, "solid") == 0
		out = append(out, f)
	}
	return out
}

func spoil(t *rapid.T, f *stlFile, kinds []string) {
	f.Bad = rapid.SampledFrom(kinds).Draw(t, "bad")
	f.Cut = rapid.IntRange(0, 999).Draw(t, "cut")
	f.ASCII, f.Solid = false, false
	if f.Tris == 0 {
		f.Tris = 2
	}
}

// mixed reports what makes a merge interesting.
func mixed(x *core.Ctx, files []stlFile, workers int) {
	n := 0
	for _, f := range files {
		if f.Tris > 0 {
			n++
		}
		if f.ASCII {
			x.Label("ascii")
		}
		if f.Bad != "" {
			x.Label("bad=%s", f.Bad)
		}
	}
	if n > 1 {
		x.NonTrivial()
	}
	if workers > 1 && workers < len(files) {
		x.Label("pool smaller than files")
	}
}

func c19() *core.Prop {
	gen := func(t *rapid.T) mergeCase {
		most := 12
		if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
			most = 40
		}
		c := mergeCase{Files: genFiles(t, most), Workers: rapid.IntRange(1, 16).Draw(t, "workers")}
		if len(c.Files) == 0 {
			return c
		}
		for i := range c.Files {
			c.Order = append(c.Order, i)
		}
		c.Order = rapid.Permutation(c.Order).Draw(t, "order")
		if rapid.IntRange(0, 5).Draw(t, "again") == 0 {
			c.Order = append(c.Order, rapid.SampledFrom(c.Order).Draw(t, "again"))
		}
		if rapid.IntRange(0, 3).Draw(t, "spoil") == 0 {
			for k := rapid.IntRange(1, 3).Draw(t, "bads"); k > 0; k-- {
				spoil(t, &c.Files[rapid.IntRange(0, len(c.Files)-1).Draw(t, "which")], []string{"missing", "missing", "dir", "cut", "longer", "vertices", "asciicut", "number"})
			}
		}
		return c
	}
	genMany := func(t *rapid.T) mergeCase {
		c := gen(t)
		c.Many = rapid.SampledFrom([]int{64, 128, 256, 257, 300, 512, 700, 1024, 1100}).Draw(t, "many") + rapid.IntRange(-2, 2).Draw(t, "more")
		if rapid.IntRange(0, 2).Draw(t, "big") == 0 && len(c.Files) > 0 {
			if f := &c.Files[rapid.IntRange(0, len(c.Files)-1).Draw(t, "which")]; f.Bad == "" {
				f.Tris = rapid.SampledFrom([]int{4096, 32768, 65535, 65536, 70001}).Draw(t, "n")
				f.ASCII = false
			}
		}
		return c
	}
	run := func(x *core.Ctx, c mergeCase) error {
		var names []string
		c.Files, c.Order = c.all()
		for i, f := range c.Files {
			p := filepath.Join(x.Dir(), fmt.Sprintf("f%04d.stl", i))
			f.store(p)
			names = append(names, p)
		}
		var want []core.Tri
		var list []string
		bad := ""
		for _, i := range c.Order {
			list = append(list, names[i])
			want = append(want, c.Files[i].tris()...)
			if c.Files[i].Bad != "" {
				bad = fmt.Sprintf("file %d is %s", i, c.Files[i].Bad)
			}
		}
		mixed(x, c.Files, c.Workers)
		if c.Workers%4 == 1 && len(list) > 0 { // the first file held something else before
			if first := c.Files[c.Order[0]]; first.Bad != "missing" && first.Bad != "dir" {
				stlFile{Tris: 2, From: 900000}.store(list[0])
				merge(list, c.Workers)
				first.store(list[0])
				x.Label("changed")
			}
		}
		mesh, err := merge(list, c.Workers)
		what := fmt.Sprintf("Merge of %d files by %d workers", len(list), c.Workers)
		if bad != "" {
			if err == nil {
				return core.Failf("%s reports success although %s", what, bad)
			}
			if mesh != nil {
				return core.Failf("%s returns a mesh together with the error %v", what, err)
			}
			x.NonTrivial()
			return nil
		}
		if len(list) == 0 {
			if err == nil && mesh == nil {
				return core.Failf("%s returns neither a mesh nor an error", what)
			}
			return nil
		}
		if err != nil {
			return core.Failf("%s fails: %v", what, err)
		}
		if mesh == nil {
			return core.Failf("%s returns no mesh", what)
		}
		if d := core.DiffTris(core.Round32(want), core.Round32(core.MeshTris(mesh))); d != "" {
			return core.Failf("%s: %s", what, d)
		}
		return nil
	}
	genTool := func(t *rapid.T) mergeCase {
		c := mergeCase{Files: genFiles(t, 6), Workers: rapid.IntRange(1, 12).Draw(t, "workers")}
		if len(c.Files) > 0 && rapid.IntRange(0, 3).Draw(t, "spoil") == 0 {
			spoil(t, &c.Files[rapid.IntRange(0, len(c.Files)-1).Draw(t, "which")], []string{"dir", "cut", "longer", "vertices", "asciicut", "number"})
		}
		return c
	}
	genToolMany := func(t *rapid.T) mergeCase {
		c := genTool(t)
		c.Many = genMany(t).Many
		return c
	}
	runTool := func(x *core.Ctx, c mergeCase) error {
		c.Files, c.Order = c.all()
		var want []core.Tri
		bad := ""
		for i, f := range c.Files {
			f.store(filepath.Join(x.Dir(), fmt.Sprintf("out-%04d.stl", i)))
			want = append(want, f.tris()...)
			if f.Bad != "" {
				bad = f.Bad
			}
		}
		mixed(x, c.Files, c.Workers)
		r := x.Tool(core.ToolOpt{}, "merge-stl", "-num", fmt.Sprint(c.Workers), "-prefix", "out")
		b, err := os.ReadFile(filepath.Join(x.Dir(), "out.stl"))
		if bad != "" || len(c.Files) == 0 {
			x.NonTrivial()
			if r.Crashed {
				return core.Failf("merge-stl crashes on %d files (bad: %q): %s", len(c.Files), bad, core.Tail(r.Stderr))
			}
			if r.Code == 0 {
				return core.Failf("merge-stl reports success on %d files (bad: %q)", len(c.Files), bad)
			}
			if err == nil {
				return core.Failf("merge-stl writes out.stl (%d bytes) although it fails", len(b))
			}
			return nil
		}
		if r.Code != 0 {
			return core.Failf("merge-stl fails with status %d: %s", r.Code, core.Tail(r.Stderr))
		}
		if err != nil {
			return core.Failf("merge-stl reports success and writes nothing: %v", err)
		}
		got, err := core.DecodeSTL(b)
		if err != nil {
			return core.Failf("merge-stl writes a malformed file: %v", err)
		}
		if d := core.DiffTris(core.Round32(want), got); d != "" {
			return core.Failf("merge-stl: %s", d)
		}
		return nil
	}
	return &core.Prop{
		ID:          "C19",
		Rule:        "up to 12 (sometimes 40) binary and text STL files of 0 to 400 triangles, some shared between files, listed in any order and possibly twice, merged in-process by 1 to 16 workers under the race detector, or by the tool; in the arms 'many' about 64 to 1100 further small files, and files of up to 70001 triangles; missing files, directories, truncated binary and text files and text files with malformed numbers; non-trivial: at least two files with triangles, or an unusable file, or none",
		Assumptions: []string{"coordinates are compared as float32, the precision of an STL file", "a text file cut exactly between two facets cannot be told from a complete one and is not generated", "schedules are those the Go scheduler produces; data races on them are reported by the race detector"},
		Tools:       []string{"./cmd/merge-stl"},
		CaseLimit:   2 * time.Minute,
		Arms: []*core.Arm{
			core.NewArm("library", 2250, 30000, gen, run),
			core.NewArm("many", 60, 1000, genMany, run),
			core.NewArm("tool", 200, 3000, genTool, runTool),
			core.NewArm("tool-many", 24, 300, genToolMany, runTool),
		},
	}
}

func merge(list []string, workers int) (*gl.Mesh, error) { return stl.Merge(list, workers) }
