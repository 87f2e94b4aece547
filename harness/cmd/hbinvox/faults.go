package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"github.com/gmlewis/stldice/v4/vshell"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// ---------------------------------------------------------------- C05

type fault struct {
	Model core.Model `json:"model"`
	Kind  string     `json:"kind"`  // binvox, vshell, voxcut-binvox, voxcut-vox, merge-binvox, image, archive
	Where string     `json:"where"` // limit, full, nodir, isdir
	Limit int        `json:"limit"` // byte position at which writing fails (permille of size if Frac)
	Frac  bool       `json:"frac"`
}

func limitFSize(n uint64, f func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(1, &old); err != nil {
		core.Infra("getrlimit: %v", err)
	}
	if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: n, Max: old.Max}); err != nil {
		core.Infra("setrlimit: %v", err)
	}
	defer syscall.Setrlimit(1, &old)
	f()
}

func toShell(g *core.Grid) *vshell.VShell {
	vs := &vshell.VShell{NX: g.N[0], NY: g.N[1], NZ: g.N[2], TX: g.T[0], TY: g.T[1], TZ: g.T[2], Scale: g.Scale}
	sh := core.ShellOf(g.Cells)
	for p := range sh {
		vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: p[0], Y: p[1], Z: p[2], N: vshell.NeighborBitMap(sh[p])})
	}
	return vs
}

func runFault(x *core.Ctx, c fault) error {
	g := c.Model.Grid()
	dir := x.Dir()
	ext := map[string]string{"binvox": ".binvox", "vshell": ".vsh", "voxcut-binvox": ".binvox", "voxcut-vox": ".vox", "merge-binvox": ".vsh", "image": ".png", "archive": ".svx"}[c.Kind]
	tool := c.Kind != "binvox" && c.Kind != "vshell"
	if c.Kind == "image" { // a box, as the tool slices STL files
		g = core.NewGrid(g.N, g.T, g.Scale)
		g.Cells[core.P{}] = true
	}
	// write stores the model at path under a file size limit (-1: none) and
	// reports success.
	write := func(path string, limit int64) (bool, string) {
		if !tool {
			var err error
			do := func() {
				if c.Kind == "binvox" {
					err = toBinvox(g).Write(path, 0, 0, 0, 0, 0, 0)
				} else {
					err = toShell(g).Write(path, 0, 0, 0, 0, 0, 0)
				}
			}
			if limit >= 0 {
				limitFSize(uint64(limit), do)
			} else {
				do()
			}
			return err == nil, fmt.Sprint(err)
		}
		var r core.ToolResult
		o := core.ToolOpt{FSize: limit + 1}
		// The dicing tools choose the name of their output, which path then
		// is a link to.
		stl := func() string {
			s := core.Solid{Kind: "box"}
			for i := range s.Size {
				s.Size[i] = float64(g.N[i])
				s.Pos[i] = g.T[i] + s.Size[i]/2
			}
			f := filepath.Join(dir, "in.stl")
			if err := os.WriteFile(f, core.EncodeSTL(core.SceneTris([]core.Solid{s})), 0o644); err != nil {
				core.Infra("%v", err)
			}
			return f
		}
		n := max(g.N[0], g.N[1], g.N[2])
		switch c.Kind {
		case "image":
			o.Dir = path + ".d"
			z := (g.N[0]*g.N[1] + len(c.Model.Runs) + c.Limit) % g.N[2] // any layer
			if err := os.Mkdir(o.Dir, 0o755); err != nil {
				core.Infra("%v", err)
			}
			if err := os.Symlink(path, filepath.Join(o.Dir, fmt.Sprintf("out-%d-1-1-1-%d.png", n, z))); err != nil {
				core.Infra("%v", err)
			}
			r = x.Tool(o, "stldice-mr", "-dim", fmt.Sprint(n), "-nx", "1", "-ny", "1", "-nz", "1", "-stl", stl())
			return r.Code == 0, fmt.Sprintf("exit status %d, %s", r.Code, core.Tail(r.Stderr))
		case "archive":
			m := core.TheStandInMaster()
			m.Answer(&pb.NewJobResponse{SvxFile: core.EncodeBinvox(g, nil)}, nil)
			pre := path[:len(path)-len(".svx")]
			if err := os.Symlink(path, pre+fmt.Sprintf("-%d-1-1-1.svx", n)); err != nil && !os.IsNotExist(err) {
				core.Infra("%v", err)
			}
			r = x.Tool(o, "stl2svx-client", "-dim", fmt.Sprint(n), "-nx", "1", "-ny", "1", "-nz", "1", "-prefix", pre, "-master", m.Addr, "-stl", stl())
			return r.Code == 0, fmt.Sprintf("exit status %d, %s", r.Code, core.Tail(r.Stderr))
		}
		in := filepath.Join(dir, "in-0.binvox")
		if err := os.WriteFile(in, core.EncodeBinvox(g, nil), 0o644); err != nil {
			core.Infra("%v", err)
		}
		switch c.Kind {
		case "voxcut-binvox":
			r = x.Tool(o, "voxcut", "-obinvox", path, in)
		case "voxcut-vox":
			r = x.Tool(o, "voxcut", "-ovox", path, in)
		case "merge-binvox":
			// The output name follows from the prefix.
			pre := path[:len(path)-len(".vsh")]
			if err := os.Rename(in, pre+"-0.binvox"); err != nil {
				core.Infra("%v", err)
			}
			r = x.Tool(o, "merge-binvox", "-f", "-prefix", pre)
		}
		return r.Code == 0, fmt.Sprintf("exit status %d, %s", r.Code, core.Tail(r.Stderr))
	}
	ref := filepath.Join(dir, "ref"+ext)
	if ok, msg := write(ref, -1); !ok {
		return core.Failf("%s: writing to good storage fails: %s", c.Kind, msg)
	}
	want := readFile(ref)
	x.Label("%s/%s", c.Kind, c.Where)
	if len(g.Cells) > 0 {
		x.NonTrivial()
	}
	bad := filepath.Join(dir, "bad"+ext)
	switch c.Where {
	case "full":
		if err := os.Symlink("/dev/full", bad); err != nil {
			core.Infra("%v", err)
		}
		if ok, _ := write(bad, -1); ok {
			return core.Failf("%s: success is reported although the device is full (%d bytes to store)", c.Kind, len(want))
		}
	case "nodir":
		bad = filepath.Join(dir, "missing", "bad"+ext)
		if c.Kind == "merge-binvox" || c.Kind == "image" {
			return nil // the input would be missing too, or the directory is not chosen
		}
		if ok, _ := write(bad, -1); ok {
			return core.Failf("%s: success is reported although the directory is missing", c.Kind)
		}
	case "isdir":
		if err := os.Mkdir(bad, 0o755); err != nil {
			core.Infra("%v", err)
		}
		if ok, _ := write(bad, -1); ok {
			return core.Failf("%s: success is reported although the output is a directory", c.Kind)
		}
	default:
		limit := c.Limit
		if c.Frac {
			limit = len(want) * c.Limit / 1000
		}
		ok, msg := write(bad, int64(limit))
		got, err := os.ReadFile(bad)
		if ok && (err != nil || len(got) != len(want)) {
			return core.Failf("%s: success is reported although only %d of %d bytes could be stored (limit %d)", c.Kind, len(got), len(want), limit)
		}
		if ok && c.Kind != "voxcut-vox" && !bytes.Equal(got, want) {
			return core.Failf("%s: success is reported but the stored bytes differ", c.Kind)
		}
		if !ok && limit >= len(want) {
			return core.Failf("%s: writing within the limit fails: %s", c.Kind, msg)
		}
	}
	return nil
}

func c05() *core.Prop {
	genWith := func(kinds []string, maxCells int) func(t *rapid.T) fault {
		return func(t *rapid.T) fault {
			c := fault{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
			c.Model = core.Model{N: core.GenDims(t, 40, maxCells), T: [3]float64{1.5, -2, 0.25}, Scale: 10}
			total := c.Model.N[0] * c.Model.N[1] * c.Model.N[2]
			c.Model.Runs = core.GenRuns(t, total)
			c.Where = rapid.SampledFrom([]string{"limit", "limit", "limit", "limit", "limit", "full", "nodir", "isdir"}).Draw(t, "where")
			if c.Where == "limit" {
				if c.Frac = rapid.Bool().Draw(t, "frac"); c.Frac {
					c.Limit = rapid.IntRange(0, 1100).Draw(t, "limit")
				} else {
					c.Limit = rapid.IntRange(0, 120).Draw(t, "limit")
				}
			}
			if len(c.Model.Grid().Cells) == 0 && c.Kind != "binvox" && c.Kind != "vshell" {
				c.Model.Runs = []int{0, 1} // the tools are not asked to store nothing
			}
			return c
		}
	}
	lib := core.NewArm("library", 2500, 40000, genWith([]string{"binvox", "vshell"}, 2000), runFault)
	// Files of more than one buffer, which fail in the middle or close to
	// the ends of buffers of the usual sizes.
	large := core.NewArm("large", 200, 3000, func(t *rapid.T) fault {
		c := fault{Kind: rapid.SampledFrom([]string{"binvox", "binvox", "vshell", "vshell", "vshell", "voxcut-binvox", "voxcut-vox", "archive", "merge-binvox"}).Draw(t, "kind"), Where: "limit"}
		n := rapid.IntRange(38, 52).Draw(t, "side")
		c.Model = core.Model{N: [3]int{n, n + rapid.IntRange(-3, 3).Draw(t, "y"), n + rapid.IntRange(-3, 3).Draw(t, "z")}, T: [3]float64{1.5, -2, 0.25}, Scale: 10}
		total := c.Model.N[0] * c.Model.N[1] * c.Model.N[2]
		pat := rapid.SliceOfN(rapid.IntRange(1, 3), 2, 8).Draw(t, "pattern")
		if len(pat)%2 == 1 {
			pat = append(pat, 1)
		}
		for i, at := 0, 0; at < total; i++ { // short runs
			r := min(pat[i%len(pat)], total-at)
			c.Model.Runs = append(c.Model.Runs, r)
			at += r
		}
		if c.Frac = rapid.Bool().Draw(t, "frac"); c.Frac {
			c.Limit = rapid.IntRange(0, 1000).Draw(t, "limit")
		} else {
			c.Limit = rapid.SampledFrom([]int{4096, 8192, 16384, 32768, 65536, 98304, 131072}).Draw(t, "buffer") + rapid.IntRange(-120, 120).Draw(t, "limit")
		}
		return c
	}, runFault)
	core.Fixed(lib, func(bool) []fault {
		var out []fault
		for _, k := range []string{"binvox", "vshell"} {
			for _, runs := range [][]int{{}, {0, 1}, {0, 3, 2, 1, 5, 8}} {
				m := core.Model{N: [3]int{3, 4, 5}, T: [3]float64{1, 2, 3}, Scale: 5, Runs: runs}
				for l := 0; l < 200; l++ { // every byte position
					out = append(out, fault{Model: m, Kind: k, Where: "limit", Limit: l})
				}
				for _, w := range []string{"full", "nodir", "isdir"} {
					out = append(out, fault{Model: m, Kind: k, Where: w})
				}
			}
		}
		return out
	})
	tools := []string{"voxcut-binvox", "voxcut-vox", "merge-binvox", "image", "archive"}
	cli := core.NewArm("tools", 700, 10000, genWith(tools, 300), runFault)
	core.Fixed(cli, func(bool) []fault {
		var out []fault
		m := core.Model{N: [3]int{2, 3, 2}, T: [3]float64{1, 2, 3}, Scale: 5, Runs: []int{0, 3, 2, 1}}
		for _, k := range tools {
			for _, l := range []int{0, 1, 8, 10, 12, 19, 20, 21, 32, 40, 43, 44, 47, 48, 50, 51, 52, 56, 58, 60, 62, 63, 64, 65, 66, 70, 75, 80, 100} {
				out = append(out, fault{Model: m, Kind: k, Where: "limit", Limit: l})
			}
			for _, w := range []string{"full", "nodir", "isdir"} {
				out = append(out, fault{Model: m, Kind: k, Where: w})
			}
		}
		return out
	})
	return &core.Prop{
		ID:          "C05",
		Rule:        "a random model stored in one of seven ways (voxel library, shell library, cutting tool to voxel or VOX file, voxel merge tool, MapReduce dicer to images, archive client) while the storage fails: file size limit at a random byte position (every position for small models; files of up to several hundred KB in the arm 'large'), full device, missing directory, directory in place of the file; non-trivial: the model has an occupied cell",
		Assumptions: []string{"STL output is written by a third-party library that ignores its last flush error and is not part of this property", "faults are RLIMIT_FSIZE and /dev/full; fsync and power loss are out of scope"},
		Tools:       []string{"./cmd/voxcut", "./cmd/merge-binvox", "./cmd/stldice-mr", "./stl2svx/stl2svx-client"},
		Arms:        []*core.Arm{lib, large, cli},
	}
}
