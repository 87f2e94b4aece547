package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

type overwriteCase struct {
	Tool   string   `json:"tool"`
	Spell  int      `json:"spell"`
	Name   string   `json:"name"` // last element of the prefix
	Inputs []string `json:"inputs"`
	Other  []string `json:"other"`  // files that do not match
	Exists string   `json:"exists"` // "", "model", "long", "junk", "empty", "link", "hardlink"
	Force  bool     `json:"force"`
	Twice  bool     `json:"twice"` // merge again with force over the first result
}

var spellings = []func(dir, name string) string{
	func(d, n string) string { return n },
	func(d, n string) string { return "./" + n },
	func(d, n string) string { return ".//" + n },
	func(d, n string) string { return "././" + n },
	func(d, n string) string { return "sub/../" + n },
	func(d, n string) string { return "sub//../" + n },
	func(d, n string) string { return d + "/" + n },
	func(d, n string) string { return d + "//" + n },
	func(d, n string) string { return d + "/./" + n },
	func(d, n string) string { return d + "/sub/../" + n },
	func(d, n string) string { return "/." + d + "/" + n },
	func(d, n string) string { return "../" + filepath.Base(d) + "/" + n },
	func(d, n string) string { return "lnk/" + n },       // a link to the directory itself
	func(d, n string) string { return "sub/up/../" + n }, // where up is a link to beside
}

// part is the i-th of the disjoint pieces of one lattice.
func part(i int) *core.Grid {
	g := core.NewGrid([3]int{3, 4, 3}, [3]float64{-1, 2, 0.5}, 2)
	for y := 0; y < 4; y++ {
		for k := 0; k < 9; k++ {
			if (k*7+y*5)%4 == i%4 {
				g.Cells[core.P{k / 3, y, k % 3}] = true
			}
		}
	}
	return g
}

func piece(i int) []core.Tri {
	f := float64(10 * i)
	return []core.Tri{{{f, 0, 0}, {f + 1, 0, 0}, {f, 1, 0}}, {{f, 2, 0}, {f + 1, 0, 3}, {f, 1, 0}}}
}

func genOverwrite(t *rapid.T) overwriteCase {
	c := overwriteCase{Tool: rapid.SampledFrom([]string{"merge-stl", "merge-binvox"}).Draw(t, "tool")}
	c.Spell = rapid.IntRange(0, len(spellings)-1).Draw(t, "spell")
	c.Name = rapid.SampledFrom([]string{"out", "base-64-2-2-1", "a.b", "out.stl", "x"}).Draw(t, "name")
	if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
		c.Name = core.GenName(t, "")
	}
	ext := ".stl"
	if c.Tool == "merge-binvox" {
		ext = ".binvox"
	}
	pool := []string{c.Name + "-00" + ext, c.Name + "-01-00" + ext, c.Name + "1" + ext, c.Name + "_2" + ext}
	if c.Tool == "merge-binvox" {
		pool[2] = c.Name + ext
	} else {
		pool[3] = c.Name + ".stl.stl"
	}
	k := rapid.IntRange(0, 4).Draw(t, "inputs")
	if k == 0 && rapid.IntRange(0, 2).Draw(t, "none") > 0 {
		k = 3
	}
	c.Inputs = rapid.Permutation(pool).Draw(t, "order")[:k]
	for _, o := range []string{"other" + ext, "z" + c.Name + "-00" + ext, c.Name + "-00.txt", "sub/" + c.Name + "-00" + ext, c.Name + "-00" + ext + "~"} {
		if rapid.IntRange(0, 2).Draw(t, "other") == 0 {
			c.Other = append(c.Other, o)
		}
	}
	c.Exists = rapid.SampledFrom([]string{"model", "", "long", "junk", "empty", "link", "hardlink"}).Draw(t, "exists")
	c.Force = rapid.Bool().Draw(t, "force")
	c.Twice = rapid.IntRange(0, 2).Draw(t, "twice") == 0
	return c
}

func c20() *core.Prop {
	run := func(x *core.Ctx, c overwriteCase) error {
		put(x, "sub/keep", nil)
		if err := os.Symlink(".", filepath.Join(x.Dir(), "lnk")); err != nil {
			core.Infra("%v", err)
		}
		isSTL := c.Tool == "merge-stl"
		put(x, "beside/keep", nil)
		if err := os.Symlink("../beside", filepath.Join(x.Dir(), "sub/up")); err != nil {
			core.Infra("%v", err)
		}
		out := c.Name + ".vsh"
		if isSTL {
			out = c.Name + ".stl"
		}
		content := func(i int) []byte {
			if isSTL {
				return core.EncodeSTL(piece(i))
			}
			return core.EncodeBinvox(part(i), nil)
		}
		var want []core.Tri
		cells := map[core.P]bool{}
		for i, n := range c.Inputs {
			put(x, n, content(i))
			if c.Spell == len(spellings)-1 {
				put(x, "sub/"+n, content(i))
			}
			want = append(want, piece(i)...)
			for p := range part(i).Cells {
				cells[p] = true
			}
		}
		for i, n := range c.Other {
			put(x, n, content(5+i))
		}
		var old []byte
		switch c.Exists {
		case "model", "link", "hardlink":
			if isSTL {
				old = core.EncodeSTL(piece(77))
			} else {
				g := part(0)
				old = core.EncodeVShell(&core.Shell{Grid: *g, N26: core.ShellOf(g.Cells)}, nil)
			}
		case "long":
			old = core.OldBytes(100000)
		case "junk":
			old = []byte("not a model at all, but somebody's notes")
		case "empty":
			old = []byte{}
		}
		switch c.Exists {
		case "":
		case "link", "hardlink":
			// The output name leads to a file elsewhere.
			put(x, "sub/real", old)
			mk := os.Symlink
			if c.Exists == "hardlink" {
				mk = os.Link
			}
			if err := mk(filepath.Join(x.Dir(), "sub/real"), filepath.Join(x.Dir(), out)); err != nil {
				core.Infra("%v", err)
			}
		default:
			put(x, out, old)
		}
		if c.Spell == len(spellings)-1 && (c.Force || c.Exists == "") {
			c.Spell-- // filepath.Glob drops the link and the .. and fails
		}
		prefix := spellings[c.Spell](x.Dir(), c.Name)
		what := fmt.Sprintf("%s -prefix %s (output exists: %q, force: %v, %d inputs)", c.Tool, strings.ReplaceAll(prefix, x.Dir(), "$PWD"), c.Exists, c.Force, len(c.Inputs))
		before := files(x)
		args := options(pfx, "-prefix", prefix)
		if c.Force {
			args = append(args, "-f")
		}
		if c.Exists != "" {
			x.NonTrivial()
		}
		r := x.Tool(core.ToolOpt{}, c.Tool, args...)
		if r.Crashed {
			return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
		}
		after := files(x)
		for _, n := range keys(before) {
			if n != out && n != "sub/real" && after[n] != before[n] {
				return core.Failf("%s changes %s", what, n)
			}
		}
		got := get(x, out)
		untouched := func() error {
			if r.Code == 0 {
				return core.Failf("%s reports success", what)
			}
			if (got == nil) != (old == nil) || string(got) != string(old) {
				return core.Failf("%s fails but changes the existing %s (%d bytes, now %d)", what, out, len(old), len(got))
			}
			return nil
		}
		if c.Exists != "" && !c.Force {
			x.Label("refused")
			return untouched()
		}
		if len(c.Inputs) == 0 {
			x.Label("nothing to merge")
			return untouched()
		}
		check := func() error {
			if r.Code != 0 || got == nil {
				return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
			}
			if isSTL {
				tris, err := core.DecodeSTL(got)
				if err != nil {
					return core.Failf("%s writes a malformed file: %v", what, err)
				}
				if d := core.DiffTris(want, tris); d != "" {
					return core.Failf("%s: result: %s", what, d)
				}
				return nil
			}
			s, short, err := core.DecodeVShell(got)
			if err != nil || short {
				return core.Failf("%s writes a malformed file: %v short=%v", what, err, short)
			}
			set, exp := map[core.P]bool{}, map[core.P]bool{}
			for p := range s.N26 {
				set[p] = true
			}
			for p := range core.ShellOf(cells) {
				exp[p] = true
			}
			if d := core.DiffCells(exp, set); d != "" {
				return core.Failf("%s: result: %s", what, d)
			}
			return nil
		}
		if err := check(); err != nil {
			return err
		}
		x.Label("merged")
		if !c.Twice {
			return nil
		}
		prev := got
		r = x.Tool(core.ToolOpt{}, c.Tool, options(pfx, "-prefix", prefix)...)
		got, old, what = get(x, out), prev, what+", then again without force"
		if err := untouched(); err != nil {
			return err
		}
		r = x.Tool(core.ToolOpt{}, c.Tool, append([]string{"-f"}, options(pfx, "-prefix", prefix)...)...)
		got, what = get(x, out), what+" and with force"
		return check()
	}
	return &core.Prop{
		ID:          "C20",
		Rule:        "both merge tools with 14 spellings of the prefix, several base names and names of characters that patterns and shells treat specially, up to four inputs among files that do not match, an output that is absent, a model, junk, empty or reached through a link, with and without force, and merging again; non-trivial: the output exists beforehand",
		Assumptions: []string{"prefixes contain no pattern characters", "a forced merge of nothing fails and keeps the old output"},
		Tools:       []string{"./cmd/merge-stl", "./cmd/merge-binvox"},
		Arms:        []*core.Arm{core.NewArm("tool", 5000, 40000, genOverwrite, run)},
	}
}
