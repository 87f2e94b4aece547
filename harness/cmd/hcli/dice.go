package main

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

type diceCase struct {
	Cut    cutCase `json:"cut"` // base, cuts, outputs; no window
	Size   int     `json:"size"`
	Script bool    `json:"script"` // print and run the script, rather than run directly
	Prefix string  `json:"prefix"`
	Name   string  `json:"name,omitempty"`  // start of the names of the inputs
	Again  bool    `json:"again,omitempty"` // once before, with fewer cells
}

func c17() *core.Prop {
	gen := func(t *rapid.T) diceCase {
		c := diceCase{Cut: cutCase{Base: genBase(t, 20, 1500)}}
		if rapid.IntRange(0, 3).Draw(t, "sparse") == 0 { // leave chunks empty
			n := c.Cut.Base.N
			p := rapid.IntRange(0, n[0]*n[1]*n[2]-1).Draw(t, "p")
			c.Cut.Base.Runs = []int{p, rapid.IntRange(1, 5).Draw(t, "r")}
		}
		for i := rapid.IntRange(0, 2).Draw(t, "cuts"); i > 0; i-- {
			c.Cut.Cuts = append(c.Cut.Cuts, genCut(t, c.Cut.Base))
		}
		n := c.Cut.Base.N
		d := max(n[0], n[1], n[2])
		c.Size = rapid.IntRange(max(1, d/5), d+1).Draw(t, "size")
		if rapid.IntRange(0, 3).Draw(t, "half") == 0 {
			c.Size = max(1, (d+1)/2)
		}
		for chunks(n, c.Size) > 60 {
			c.Size++
		}
		c.Script = rapid.Bool().Draw(t, "script")
		c.Cut.STL = rapid.IntRange(0, 3).Draw(t, "stl") == 0
		c.Cut.VOX = rapid.IntRange(0, 3).Draw(t, "vox") == 0
		c.Prefix = rapid.SampledFrom([]string{"out", "sub/part", "./a.b", "my part", "sub/it's 5%;$x"}).Draw(t, "prefix")
		if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
			c.Prefix = rapid.SampledFrom([]string{"", "sub/", "./", "~/", "a b/"}).Draw(t, "to") + core.GenName(t, "") + "x"
		}
		c.Cut.After = rapid.Bool().Draw(t, "after")
		c.Again = rapid.IntRange(0, 3).Draw(t, "again") == 0
		if rapid.IntRange(0, 2).Draw(t, "blank") == 0 {
			c.Name = core.GenName(t, "")
		}
		return c
	}
	genMany := func(t *rapid.T) diceCase {
		c := gen(t)
		long := rapid.IntRange(0, 2).Draw(t, "long")
		n := &c.Cut.Base.N
		old := max(n[0], n[1], n[2])
		for i := range n {
			n[i] = rapid.IntRange(1, 3).Draw(t, "n")
		}
		n[long] = rapid.SampledFrom([]int{99, 100, 101, 128, 150, 260, 1100, 10100}).Draw(t, "length")
		c.Size = max(1, n[long]/rapid.IntRange(90, 130).Draw(t, "chunks"))
		if n[long] <= 260 && rapid.IntRange(0, 2).Draw(t, "few") == 0 { // the tool walks through size cubed cells
			c.Size = n[long] / rapid.IntRange(1, 4).Draw(t, "chunks")
		}
		for chunks(*n, c.Size) > 200 {
			c.Size++
		}
		if c.Size > 256 { // more than a VOX file holds
			c.Cut.VOX = false
		}
		c.Cut.Base.Scale *= float64(n[long]) / float64(old) // the cuts keep their lattice
		total := n[0] * n[1] * n[2]
		c.Cut.Base.Runs = []int{total}
		if rapid.Bool().Draw(t, "all") {
			c.Cut.Base.Runs = []int{0, total}
		} else {
			c.Cut.Base.Runs = core.GenRuns(t, total)
		}
		return c
	}
	run := func(x *core.Ctx, c diceCase) error {
		base, left := difference(c.Cut)
		name := c.Name
		if word(name) != name {
			x.Label("names to quote")
		}
		put(x, name+c.Cut.baseName(), core.EncodeBinvox(base, nil))
		put(x, path.Dir(c.Prefix)+"/keep", nil)
		args := append(options(map[string]string{"-size": "256"}, "-size", fmt.Sprint(c.Size)), "-obinvox", c.Prefix)
		if c.Cut.STL {
			args = append(args, "-ostl", c.Prefix)
		}
		if c.Cut.VOX {
			args = append(args, "-ovox", c.Prefix)
		}
		if c.Script {
			args = append(args, "-n")
		}
		args = append(args, name+c.Cut.baseName())
		for i, m := range c.Cut.Cuts {
			args = append(args, m.store(x, base, fmt.Sprintf("%scut%d.binvox", name, i), nil))
		}
		before := files(x)
		was := len(before)
		if c.Again { // no chunk has cells that has none afterwards
			fewer := core.NewGrid(base.N, base.T, base.Scale)
			for p := range left {
				if (p[0]+p[1]+p[2])%2 == 0 {
					fewer.Cells[p] = true
				}
			}
			put(x, name+c.Cut.baseName(), core.EncodeBinvox(fewer, nil))
			if r := x.Tool(core.ToolOpt{}, "voxcut-dice", args...); c.Script && r.Code == 0 {
				put(x, "script.sh", []byte(r.Stdout))
				x.Tool(core.ToolOpt{}, "/bin/bash", "script.sh")
			}
			put(x, name+c.Cut.baseName(), core.EncodeBinvox(base, nil))
			was = len(files(x))
			if was > len(before)+2 {
				x.Label("outputs replaced")
			}
		}
		r := x.Tool(core.ToolOpt{}, "voxcut-dice", args...)
		what := fmt.Sprintf("voxcut-dice -size %d of a %v model (script=%v)", c.Size, base.N, c.Script)
		if r.Crashed {
			return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
		}
		refuse := c.Size > base.N[0] && c.Size > base.N[1] && c.Size > base.N[2]
		if refuse && r.Code != 0 { // documented: nothing to dice
			x.Label("no need to dice")
			return nil
		}
		if r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		if c.Script {
			if len(files(x)) != was {
				return core.Failf("%s writes files in a dry run", what)
			}
			put(x, "script.sh", []byte(r.Stdout))
			before["script.sh"] = ""
			if s := x.Tool(core.ToolOpt{}, "/bin/bash", "script.sh"); s.Crashed || strings.Contains(s.Stderr, "syntax error") || strings.Contains(s.Stderr, "command not found") {
				return core.Failf("%s: the script does not run: %s", what, core.Tail(s.Stderr))
			}
		}
		got := map[core.P]string{}
		parts := 0
		vox := map[core.P]bool{}
		after := files(x)
		for name, b := range after {
			if _, ok := before[name]; ok {
				continue
			}
			if !strings.HasPrefix(name, filepath.Clean(c.Prefix)) {
				return core.Failf("%s writes %s, which does not start with the prefix %q", what, name, c.Prefix)
			}
			switch filepath.Ext(name) {
			case ".binvox":
			case ".stl":
				if !c.Cut.STL {
					return core.Failf("%s writes %s unasked", what, name)
				}
				tris, err := core.DecodeSTL([]byte(b))
				if err != nil {
					return core.Failf("%s: %s: %v", what, name, err)
				}
				// The chunk's mesh is that of the model beside it.
				g, _, err := core.DecodeBinvox([]byte(after[strings.TrimSuffix(name, ".stl")+".binvox"]))
				if err != nil {
					return core.Failf("%s: the model beside %s: %v", what, name, err)
				}
				tol := 4e-7 * (maxAbs(g.T)/base.MMPV() + 100)
				if tol < 0.1 {
					if err := core.Blocky(core.ToVoxels(tris, g.T, base.MMPV()), g.Cells, tol); err != nil {
						return core.Failf("%s: %s: %v", what, name, err)
					}
				}
				continue
			case ".vox":
				if !c.Cut.VOX {
					return core.Failf("%s writes %s unasked", what, name)
				}
				g, _, err := core.DecodeBinvox([]byte(after[strings.TrimSuffix(name, ".vox")+".binvox"]))
				if err != nil {
					return core.Failf("%s: the model beside %s: %v", what, name, err)
				}
				if err := checkVOX([]byte(b), cutCase{}, g.Cells); err != nil {
					return core.Failf("%s: %s: %v", what, name, err)
				}
				cells, err := worldCells(base, g)
				if err != nil {
					return core.Failf("%s: %s: %v", what, name, err)
				}
				for p := range cells {
					vox[p] = true
				}
				continue
			default:
				return core.Failf("%s writes %s", what, name)
			}
			g, short, err := core.DecodeBinvox([]byte(b))
			if err != nil || short {
				return core.Failf("%s: %s is malformed: %v short=%v", what, name, err, short)
			}
			cells, err := worldCells(base, g)
			if err != nil {
				return core.Failf("%s: %s: %v", what, name, err)
			}
			lo, hi := core.P{1 << 30, 1 << 30, 1 << 30}, core.P{}
			for p := range cells {
				if o := got[p]; o != "" {
					return core.Failf("%s: cell %v is in both %s and %s", what, p, o, name)
				}
				got[p] = name
				for i := range p {
					lo[i], hi[i] = min(lo[i], p[i]), max(hi[i], p[i])
				}
			}
			for i := range lo {
				if hi[i]-lo[i] >= c.Size {
					return core.Failf("%s: %s spans %d cells, more than the size", what, name, hi[i]-lo[i]+1)
				}
			}
			parts++
		}
		all := map[core.P]bool{}
		for p := range got {
			all[p] = true
		}
		if parts > 1 {
			x.NonTrivial()
		}
		if len(left) > 0 && parts < chunks(base.N, c.Size) {
			x.Label("some chunks empty")
		}
		if base.N[0]%c.Size != 0 || base.N[1]%c.Size != 0 || base.N[2]%c.Size != 0 {
			x.Label("size does not divide")
		}
		if d := core.DiffCells(left, all); d != "" {
			return core.Failf("%s: cells of all chunks together: %s", what, d)
		}
		if c.Cut.VOX {
			if d := core.DiffCells(left, vox); d != "" {
				return core.Failf("%s: cells of all VOX files together: %s", what, d)
			}
		}
		return nil
	}
	names := func(bool) (out []diceCase) {
		for _, name := range core.Names() {
			c := diceCase{Script: true, Size: 2, Name: name, Prefix: name}
			c.Cut.Base = core.Model{N: [3]int{3, 2, 1}, Scale: 3, Runs: []int{1, 3, 1, 1}}
			out = append(out, c)
		}
		return out
	}
	defaults := func(bool) (out []diceCase) {
		for _, n := range []int{257, 513} {
			c := diceCase{Size: 256, Prefix: "out"}
			c.Cut.Base = core.Model{N: [3]int{n, 2, 1}, Scale: float64(n), Runs: []int{0, 2 * n}}
			out = append(out, c)
		}
		return out
	}
	crowd := func(t *rapid.T) diceCase {
		c := gen(t)
		for chunks(c.Cut.Base.N, c.Size) > 12 {
			c.Size++
		}
		c.Cut.Cuts = genCutCrowd(t, c.Cut.Base)
		return c
	}
	return &core.Prop{
		ID:          "C17",
		Rule:        "bases up to 20 per axis with up to 2 (`crowd`: 300) cuts, every chunk size from a fifth of the model to beyond it (at most about 60 chunks), thin models of up to 10100 cells in up to 200 chunks, run directly or by running the printed script, some where outputs of an earlier run are; file names and prefixes of letters, blanks, shell, pattern, format and markup characters, each of them at the start of a name and inside; non-trivial: more than one chunk has cells",
		Assumptions: []string{"chunk sizes are positive; a size beyond every dimension may be refused, as documented"},
		Tools:       []string{"./cmd/voxcut", "./cmd/voxcut-dice"},
		Arms:        []*core.Arm{core.NewArm("tool", 350, 8000, gen, run), core.NewArm("many", 30, 1000, genMany, run), core.NewArm("crowd", 12, 300, crowd, run), core.Fixed(core.NewArm("defaults", 0, 0, nil, run), defaults), core.Fixed(core.NewArm("names", 0, 0, nil, run), names)},
	}
}

func chunks(n [3]int, size int) int {
	out := 1
	for _, v := range n {
		out *= (v + size - 1) / size
	}
	return out
}
