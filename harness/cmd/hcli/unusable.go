package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"
	"time"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"pgregory.net/rapid"
	"verif/harness/core"
)

type unusableCase struct {
	Tool string     `json:"tool"`
	What string     `json:"what"`
	V    int64      `json:"v,omitempty"`    // a number of cells, divisions, ...
	Text string     `json:"text,omitempty"` // a bounding box
	At   int        `json:"at,omitempty"`   // which file, or where it is cut (permille)
	Junk []byte     `json:"junk,omitempty"`
	N    [3]int     `json:"n"`
	T    [3]float64 `json:"t"`
	Size float64    `json:"size"`
	Cuts int        `json:"cuts"`
	Bin  bool       `json:"bin,omitempty"` // binary STL
}

var unusableOf = map[string][]string{
	"stldice":        {"dim", "div", "box", "file", "none"},
	"stldice-mr":     {"dim", "div", "file", "none", "flat", "destination"},
	"voxcut":         {"start", "count", "file", "none", "nooutput", "destination"},
	"voxcut-dice":    {"size", "file", "none", "nooutput", "destination"},
	"binvox-dice":    {"factor", "box", "none"},
	"merge-binvox":   {"file", "none", "destination"},
	"merge-stl":      {"file", "none", "workers", "destination"},
	"manifold-mesh":  {"file", "none", "nooutput", "destination"},
	"marching-cubes": {"file", "none", "nooutput", "destination"},
	"svx2stl":        {"file", "none", "destination"},
	"stl2svx-client": {"file", "none", "destination"},
}

func genUnusable(t *rapid.T) unusableCase {
	tools := keys(unusableOf)
	c := unusableCase{Tool: rapid.SampledFrom(tools).Draw(t, "tool")}
	c.What = rapid.SampledFrom(unusableOf[c.Tool]).Draw(t, "what")
	c.Size = rapid.SampledFrom([]float64{1, 7.5, 0.25, 40}).Draw(t, "mm")
	for i := range c.N {
		c.N[i] = rapid.IntRange(1, 6).Draw(t, "n")
		c.T[i] = float64(rapid.IntRange(-50, 50).Draw(t, "t")) / 2
	}
	c.Cuts = rapid.IntRange(0, 2).Draw(t, "cuts")
	c.Bin = rapid.Bool().Draw(t, "binary")
	c.V = rapid.SampledFrom([]int64{0, -1, -2, -8, math.MinInt32, math.MinInt64}).Draw(t, "v")
	c.At = rapid.IntRange(0, 999).Draw(t, "at")
	switch c.What {
	case "box":
		lo, hi := c.T, c.T
		for i := range hi {
			hi[i] += float64(c.N[i])
		}
		k := rapid.IntRange(0, 2).Draw(t, "axis")
		s := []string{}
		for i := range lo {
			s = append(s, fmt.Sprint(lo[i]))
		}
		for i := range hi {
			s = append(s, fmt.Sprint(hi[i]))
		}
		f := "(%s,%s,%s)-(%s,%s,%s)"
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0: // no extent
			s[k+3] = s[k]
		case 1: // reversed
			s[k], s[k+3] = s[k+3], s[k]
		case 2: // no numbers
			s[k+3*rapid.IntRange(0, 1).Draw(t, "corner")] = rapid.SampledFrom([]string{"NaN", "x", "1e999", "1.2.3", "--1", "()"}).Draw(t, "word")
		case 3:
			s = []string{s[3], s[4], s[5], s[0], s[1], s[2]}
		case 4:
			f = rapid.SampledFrom([]string{"(%s,%s)-(%s,%s)", "(%s,%s,%s,%s,%s,%s)", "(%s %s %s)-(%s %s %s)", "(%s,%s,%s)", "%s", "(%s,%s,%s)-(%s,%s,%s)-(0,0,0)"}).Draw(t, "form")
		default:
			f = rapid.SampledFrom([]string{"box", "-", "()-()", "(,,)-(,,)", "(1,2,3)-"}).Draw(t, "text")
		}
		var a []any
		for _, v := range s {
			a = append(a, v)
		}
		c.Text = strings.SplitN(fmt.Sprintf(f, a...), "%!(EXTRA", 2)[0]
	case "file":
		c.Text = rapid.SampledFrom([]string{"missing", "directory", "empty", "cut", "cut", "junk", "text", "longer", "number"}).Draw(t, "bad")
		if c.Text == "junk" {
			c.Junk = rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(t, "junk")
		}
	case "flat":
		c.Text = rapid.SampledFrom([]string{"point", "notriangles"}).Draw(t, "flat")
	}
	return c
}

func c31() *core.Prop {
	run := func(x *core.Ctx, c unusableCase) error {
		stlIn := map[string]bool{"stldice": true, "stldice-mr": true, "binvox-dice": true, "merge-stl": true, "stl2svx-client": true}[c.Tool]
		ext := ".binvox"
		if stlIn {
			ext = ".stl"
		}
		if c.Tool == "svx2stl" {
			ext = ".svx"
		}
		// Good files.
		var names []string
		if strings.HasPrefix(c.Tool, "voxcut") && c.What == "destination" && c.N == [3]int{1, 1, 1} {
			c.Cuts = 0 // where nothing is left, nothing is written
		}
		n := 1 + c.Cuts
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("in-%d%s", i, ext)
			var b []byte
			switch {
			case ext == ".stl":
				s := core.Solid{Kind: "box"}
				for k := range s.Size {
					s.Size[k] = float64(c.N[k]) * c.Size
					s.Pos[k] = c.T[k] + s.Size[k]/2 + float64(i)/4
				}
				tris := core.Round32(core.SceneTris([]core.Solid{s}))
				if c.What == "flat" && i == 0 {
					if c.Text == "notriangles" {
						tris = nil
					}
					for a := range tris {
						for k := range tris[a] {
							tris[a][k] = tris[0][0]
						}
					}
				}
				if c.Bin && c.Text != "number" {
					b = core.EncodeSTL(tris)
				} else {
					b = core.EncodeASCIISTL(tris)
				}
			case ext == ".binvox":
				g := core.NewGrid(c.N, c.T, float64(max(c.N[0], c.N[1], c.N[2]))*c.Size)
				for p := 0; p < c.N[0]*c.N[1]*c.N[2]; p += 1 + i {
					g.Cells[core.P{p % c.N[0], p / c.N[0] % c.N[1], p / c.N[0] / c.N[1]}] = true
				}
				b = core.EncodeBinvox(g, nil)
			default:
				b = svxArchive{N: c.N, Size: c.Size / 1000, SizeFmt: "%v", Pattern: "s%d.png", Runs: []int{0, 1 + i}}.bytes()
				if c.Text == "cut" {
					b = []byte("PK\x05\x06" + strings.Repeat("\x00", 18)) // an empty archive is unusable too
				}
			}
			put(x, name, b)
			names = append(names, name)
		}
		// One of them unusable.
		if c.What == "file" {
			i := c.At % n
			if ext == ".binvox" && c.Tool != "merge-binvox" {
				i = 0 // the cutting tools pass over cuts they cannot read
			}
			path := filepath.Join(x.Dir(), names[i])
			b := get(x, names[i])
			switch c.Text {
			case "missing", "directory":
				if strings.HasPrefix(c.Tool, "merge-") && c.Text == "missing" {
					return nil // merges what is there
				}
				remove(path)
				if c.Text == "directory" {
					put(x, names[i]+"/x", nil)
				}
			case "empty":
				put(x, names[i], nil)
			case "cut":
				k := len(b)
				if ext == ".binvox" { // within the header: runs may end early
					k = strings.Index(string(b), "data\n") + 1
				}
				if j := strings.LastIndex(string(b), "endsolid"); j > 0 && string(b[:5]) == "solid" {
					k = j + 1
				}
				b = b[:c.At*k/1000]
				if ext == ".stl" && strings.HasPrefix(string(b), "solid") {
					b = core.CutASCII(b, len(b))
				}
				put(x, names[i], b)
			case "number":
				if ext == ".binvox" {
					put(x, names[i], []byte(strings.Replace(string(b), "dim ", "dim x", 1)))
				} else {
					k := strings.Index(string(b), "vertex ")
					for n := c.At % 36; n > 0; n-- {
						k += 1 + strings.Index(string(b[k+1:]), "vertex ")
					}
					put(x, names[i], []byte(string(b[:k+7])+[]string{"x", "1e999 ", "1.2.3 ", "+-"}[c.At%4]+string(b[k+7:])))
				}
			case "junk":
				put(x, names[i], append([]byte{1}, c.Junk...))
			case "text":
				put(x, names[i], []byte("facet normal 0 0 1\nvertex 1 2"))
			case "longer": // for STL, a size that does not fit the count
				if ext == ".binvox" {
					put(x, names[i], append([]byte("#binvox 2"), b[9:]...))
				} else {
					put(x, names[i], append(core.EncodeSTL(core.SceneTris([]core.Solid{{Kind: "box", Size: [3]float64{1, 1, 1}}})), 7))
				}
			}
		}
		in := names
		if c.What == "none" {
			in = nil
			for _, f := range names {
				remove(filepath.Join(x.Dir(), f))
			}
		}
		num := fmt.Sprint(c.V)
		pick := func(what string, good string) string {
			if c.What == what {
				return num
			}
			return good
		}
		axes := func(what string, at int, good string) string {
			if c.What == what && c.At%3 == at {
				return num
			}
			return good
		}
		var args []string
		box := fmt.Sprintf("(%v,%v,%v)-(%v,%v,%v)", c.T[0], c.T[1], c.T[2], c.T[0]+5, c.T[1]+5, c.T[2]+5)
		if c.What == "box" {
			box = c.Text
		}
		out := "out"
		if c.What == "destination" {
			switch c.Tool {
			case "stldice-mr":
				for z := 0; z < 12; z++ {
					put(x, fmt.Sprintf("out-12-1-1-1-%d.png/here", z), nil)
				}
			case "merge-binvox":
				put(x, "in.vsh/here", nil)
			case "merge-stl":
				put(x, "in.stl/here", nil)
			case "svx2stl":
				put(x, "in-0.stl/here", nil)
			case "stl2svx-client":
				if c.At%2 == 0 { // or a missing directory
					put(x, "out-12-1-1-1.svx/here", nil)
				}
			}
			if out = "nowhere/out"; c.At%2 == 0 {
				for _, e := range []string{".binvox", ".vox", ".stl"} {
					put(x, "out"+e+"/here", nil)
				}
				if out = "out"; c.Tool == "voxcut-dice" {
					out = "in-0" + ext + "/out"
				}
			}
		}
		switch c.Tool {
		case "stldice", "stldice-mr", "stl2svx-client":
			args = []string{"-dim", pick("dim", "12"), "-nx", axes("div", 0, "1"), "-ny", axes("div", 1, "1"), "-nz", axes("div", 2, "1")}
			if c.Tool == "stldice" {
				if c.What == "box" {
					args = append(args, "-mbb", box)
				}
				args = append(args, in...)
			} else if c.What != "none" {
				args = append(args, "-stl", strings.Join(in, ","))
			}
			if c.Tool == "stl2svx-client" {
				addr := loopback + ":1"
				if c.What != "dim" && c.What != "div" { // those are for the master to refuse
					addr = core.TheStandInMaster().Addr
					core.TheStandInMaster().Answer(&pb.NewJobResponse{SvxFile: []byte("PK")}, nil)
				}
				args = append(args, "-master", addr, "-prefix", out)
			}
		case "voxcut":
			args = []string{"-sx", axes("start", 0, "0"), "-sy", axes("start", 1, "0"), "-sz", axes("start", 2, "0"), "-cx", axes("count", 0, "0"), "-cy", axes("count", 1, "0"), "-cz", axes("count", 2, "0")}
			if c.What != "nooutput" {
				args = append(args, [][]string{{"-obinvox", out + ".binvox"}, {"-ovox", out + ".vox"}, {"-ostl", out + ".stl"}}[c.At/3%3]...)
			}
			args = append(args, in...)
		case "voxcut-dice":
			args = []string{"-size", pick("size", "1")}
			if c.What != "nooutput" {
				args = append(args, [][]string{{"-obinvox", out}, {"-ovox", out}, {"-ostl", out}}[c.At/3%3]...)
			}
			if c.At/9%2 == 0 && c.What != "destination" {
				args = append(args, "-n")
			}
			args = append(args, in...)
		case "binvox-dice":
			args = append([]string{"-factor", pick("factor", "2"), "-mbb", box}, in...)
		case "merge-binvox", "merge-stl":
			args = []string{"-prefix", "in"}
			if c.What == "destination" && c.At%2 == 0 {
				args = append(args, "-f")
			}
			if c.What == "workers" {
				args = append(args, "-num", num)
			}
		case "manifold-mesh", "marching-cubes":
			if len(in) > 0 {
				args = []string{in[0], out + ".stl"}
			} else {
				args = []string{"nothing.binvox", out + ".stl"}[c.At%3%2 : 1+c.At%3/2]
			}
			if c.What == "nooutput" {
				args = in[:1]
			}
		default:
			args = in
		}
		if (c.What == "start" || c.What == "count" || c.What == "nooutput" || c.What == "dim") && c.V == 0 && c.What != "nooutput" && c.What != "dim" {
			args[2*(c.At%3)+map[string]int{"start": 1, "count": 7}[c.What]] = "-3" // 0 is fine there
		}
		before := files(x)
		what := fmt.Sprintf("%s %q (%s %s)", c.Tool, args, c.What, c.Text)
		r := x.Tool(core.ToolOpt{Timeout: 20 * time.Second}, c.Tool, args...)
		x.Label("%s", c.Tool)
		x.NonTrivial()
		if r.Crashed {
			return core.Failf("%s crashes or does not end: %s", what, core.Tail(r.Stderr))
		}
		if r.Code == 0 {
			return core.Failf("%s reports success: %s", what, core.Tail(r.Stdout+r.Stderr))
		}
		for k, v := range files(x) {
			if old, ok := before[k]; ok && old == v {
				continue
			}
			if c.Tool == "stldice" && c.What == "file" && strings.HasSuffix(k, ".binvox") && c.At%n > 0 {
				continue // regions of the files before the unusable one
			}
			if c.Tool == "svx2stl" && c.What == "file" && k != fmt.Sprintf("in-%d.stl", c.At%n) {
				continue // those of other files
			}
			if c.Tool == "stldice-mr" && c.What == "destination" {
				continue // images of other layers
			}
			return core.Failf("%s leaves %s of %d bytes", what, k, len(v))
		}
		for _, line := range strings.Split(r.Stdout, "\n") {
			if strings.HasPrefix(line, "voxcut ") || strings.HasPrefix(line, "binvox ") || strings.HasPrefix(line, "merge-") {
				return core.Failf("%s prints the command %q", what, line)
			}
		}
		return nil
	}
	var tools []string
	for _, k := range keys(unusableOf) {
		dir := "./cmd/"
		if k == "stl2svx-client" {
			dir = "./stl2svx/"
		}
		tools = append(tools, dir+k)
	}
	return &core.Prop{
		ID:          "C31",
		Rule:        "a good invocation of one of eleven tools with one thing made unusable: numbers of cells, divisions, chunk size, window factor or workers that are zero or negative; boxes that are empty, reversed or no boxes; missing, truncated or malformed input files; no input or output at all, or an output in a missing directory or in place of one; non-trivial: every case",
		Assumptions: []string{"voxel files are cut or spoiled within the header", "the cutting tools pass over cuts that they cannot read, as their scripts need", "a region file of a model before the unusable one may be left"},
		Tools:       tools,
		Arms:        []*core.Arm{core.NewArm("unusable", 3600, 20000, genUnusable, run)},
	}
}
