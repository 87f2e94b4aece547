package main

import (
	"bytes"
	"fmt"
	"math"
	"net"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/gmlewis/stldice/v4/binvox"
	pb "github.com/gmlewis/stldice/v4/stldice"
	"golang.org/x/net/context"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
	"verif/harness/core"
)

type srvRegion struct {
	N    [3]int     `json:"n"`
	T    [3]float64 `json:"t"`
	MMPV float64    `json:"mmpv"`
}

func (r srvRegion) pb() *pb.VoxelRegion {
	h := r.T
	for i := range h {
		h[i] += float64(r.N[i]) * r.MMPV
	}
	return &pb.VoxelRegion{Llx: r.T[0], Lly: r.T[1], Llz: r.T[2], Urx: h[0], Ury: h[1], Urz: h[2], Nx: int64(r.N[0]), Ny: int64(r.N[1]), Nz: int64(r.N[2])}
}

// tris places solids given in voxels of the region, at dyadic coordinates.
func (r srvRegion) tris(solids []core.Solid) []core.Tri {
	tris := core.SceneTris(solids)
	for i := range tris {
		for j := range tris[i] {
			for k := range tris[i][j] {
				tris[i][j][k] = math.Round(tris[i][j][k]*1024)/1024*r.MMPV + r.T[k]
			}
		}
	}
	return core.Round32(tris)
}

func (r srvRegion) cells(tris []core.Tri) (map[core.P]bool, error) {
	d := max(r.N[0], r.N[1], r.N[2])
	b := binvox.New(r.N[0], r.N[1], r.N[2], r.T[0], r.T[1], r.T[2], float64(d)*r.MMPV, false)
	if err := b.Voxelize(core.GLMesh(tris)); err != nil {
		return nil, err
	}
	out := map[core.P]bool{}
	for k := range b.WhiteVoxels {
		out[core.P{k.X, k.Y, k.Z}] = true
	}
	return out, nil
}

type srvOp struct {
	Kind   string         `json:"kind"` // add, sub, get, burst, disk, junk
	Region int            `json:"region"`
	Solids [][]core.Solid `json:"solids,omitempty"`
	ASCII  bool           `json:"ascii,omitempty"`
	Junk   string         `json:"junk,omitempty"`
	Bytes  []byte         `json:"bytes,omitempty"`
	V      int64          `json:"v,omitempty"`
	F      float64        `json:"f,omitempty"`
	At     int            `json:"at,omitempty"`
	Verb   int            `json:"verb,omitempty"`
}

type srvCase struct {
	Regions []srvRegion `json:"regions"`
	Ops     []srvOp     `json:"ops"`
}

func genSrv(t *rapid.T) srvCase {
	var c srvCase
	for k := rapid.IntRange(1, 3).Draw(t, "regions"); k > 0; k-- {
		r := srvRegion{MMPV: rapid.SampledFrom([]float64{1, 0.5, 0.25, 2, 4}).Draw(t, "mmpv")}
		for i := range r.N {
			r.N[i] = rapid.IntRange(1, 12).Draw(t, "n")
			r.T[i] = float64(rapid.IntRange(-800, 800).Draw(t, "t")) / 8
		}
		if rapid.IntRange(0, 3).Draw(t, "tiny") == 0 { // a fine region, close to the origin or not
			r.MMPV = math.Ldexp(1, -rapid.IntRange(6, 14).Draw(t, "fine"))
			if rapid.Bool().Draw(t, "close") {
				for i := range r.T {
					r.T[i] *= r.MMPV
				}
			}
		}
		if len(c.Regions) > 0 && rapid.Bool().Draw(t, "near") { // a neighbour, or nearly the same
			r = c.Regions[0]
			i := rapid.IntRange(0, 2).Draw(t, "axis")
			switch rapid.IntRange(0, 3).Draw(t, "how") {
			case 3: // less apart than a reply can tell
				r.T[i] = math.Nextafter(r.T[i]+r.MMPV*rapid.SampledFrom([]float64{0, 0x1p-40, 0x1p-30}).Draw(t, "hair"), math.Inf(1))
			case 0:
				r.T[i] += float64(r.N[i]) * r.MMPV
			case 1:
				shift := r.MMPV / float64(int(8)<<(3*rapid.IntRange(0, 2).Draw(t, "shift")))
				if math.Abs(r.T[i]) > 1<<14*shift { // as a reply holds it exactly
					shift = r.MMPV / 8
				}
				r.T[i] += shift
			default:
				r.N[i]++
			}
		}
		c.Regions = append(c.Regions, r)
	}
	solids := func(r srvRegion) []core.Solid {
		s := core.GenSolids(t, r.N, rapid.SampledFrom([]float64{0.5, 2}).Draw(t, "lo"), 14, true)
		if rapid.IntRange(0, 9).Draw(t, "all") == 0 { // more than the whole region
			b := core.Solid{Kind: "box"}
			for i := range b.Size {
				b.Size[i] = float64(r.N[i] + 2)
				b.Pos[i] = float64(r.N[i]) / 2
			}
			s = []core.Solid{b}
		}
		return s
	}
	for k := rapid.IntRange(1, 9).Draw(t, "ops"); k > 0; k-- {
		op := srvOp{Region: rapid.IntRange(0, len(c.Regions)-1).Draw(t, "region")}
		r := c.Regions[op.Region]
		op.ASCII = rapid.IntRange(0, 3).Draw(t, "ascii") == 0
		switch rapid.IntRange(0, 13).Draw(t, "op") {
		case 0, 1, 2, 3:
			op.Kind = "add"
			op.Solids = [][]core.Solid{solids(r)}
		case 4, 5, 6:
			op.Kind = "sub"
			op.Solids = [][]core.Solid{solids(r)}
			if rapid.IntRange(0, 11).Draw(t, "empty") == 0 { // a mesh of nothing
				op.Solids, op.ASCII = [][]core.Solid{nil}, false
			}
		case 7:
			op.Kind = "get"
		case 8:
			op.Kind = "burst"
			for n := rapid.IntRange(2, 6).Draw(t, "burst"); n > 0; n-- {
				op.Solids = append(op.Solids, solids(r))
			}
			op.Verb = rapid.IntRange(0, 1).Draw(t, "verb")
		case 9, 10:
			op.Kind = "disk"
			op.Solids = [][]core.Solid{solids(r)}
			op.Verb = rapid.IntRange(0, 1).Draw(t, "verb")
			op.At = rapid.IntRange(0, 150).Draw(t, "limit")
		default:
			op.Kind = "junk"
			op.Junk = rapid.SampledFrom(junk).Draw(t, "junk")
			op.Verb = rapid.IntRange(0, 2).Draw(t, "junkverb")
			op.At = rapid.IntRange(0, 400).Draw(t, "at")
			op.V = rapid.SampledFrom([]int64{0, -1, -5, math.MinInt64, math.MaxInt64, 1 << 33, 1 << 21, 1 << 62, 40000, 2097152}).Draw(t, "v")
			op.F = rapid.SampledFrom([]float64{1e6, -1e9, 1e20, 1e38, -3e38}).Draw(t, "f")
			if op.Junk == "bytes" {
				op.Bytes = rapid.SliceOfN(rapid.Byte(), 0, 400).Draw(t, "bytes")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// genCrowdSrv stores many models next to each other before looking at them.
func genCrowdSrv(t *rapid.T) srvCase {
	var c srvCase
	n := rapid.SampledFrom([]int{8, 17, 33, 65, 101, 130, 257, 400}).Draw(t, "regions")
	mmpv := rapid.SampledFrom([]float64{1, 0.5, 0.25}).Draw(t, "mmpv")
	axis := rapid.IntRange(0, 2).Draw(t, "axis")
	at := [3]float64{float64(rapid.IntRange(-50, 50).Draw(t, "x")), float64(rapid.IntRange(-50, 50).Draw(t, "y")), 0}
	for len(c.Regions) < n {
		r := srvRegion{MMPV: mmpv, T: at}
		for i := range r.N {
			r.N[i] = rapid.IntRange(1, 4).Draw(t, "n")
		}
		at[axis] += float64(r.N[axis]) * mmpv
		c.Regions = append(c.Regions, r)
	}
	op := func(kind string, i int) {
		s := core.Solid{Kind: "box"}
		for a := range s.Size {
			s.Size[a] = float64(rapid.IntRange(1, c.Regions[i].N[a]).Draw(t, "size"))
			s.Pos[a] = s.Size[a] / 2
		}
		o := srvOp{Kind: kind, Region: i}
		if kind != "get" {
			o.Solids = [][]core.Solid{{s}}
		}
		c.Ops = append(c.Ops, o)
	}
	for i := range c.Regions {
		op("add", i)
	}
	for k := rapid.IntRange(1, 20).Draw(t, "ops"); k > 0; k-- {
		op(rapid.SampledFrom([]string{"add", "sub", "get"}).Draw(t, "op"), rapid.IntRange(0, n-1).Draw(t, "region"))
	}
	return c
}

// wrapping are dimensions whose product is small or negative in 32 or 64 bits.
var wrapping = [][3]int64{{1 << 11, 1 << 11, 1 << 10}, {1 << 15, 1 << 15, 4}, {1 << 15, 1 << 15, 1 << 15}, {1 << 32, 1 << 32, 1}, {1<<32 + 1, 3, 4}, {65537, 65537, 1}, {4, 1 << 31, 2}, {-3, -4, 5}, {1 << 62, 4, 3}, {1 << 22, 1 << 21, 1 << 21}, {1<<15 + 1, 2, 2}}

var junk = []string{"bytes", "short", "count", "ascii", "asciicut", "asciibad", "nan", "inf", "far", "noregion", "dims", "point", "corner", "nofile", "flat"}

// again repeats one failing request over and over: nothing of it may stay.
func again(bool) (out []srvCase) {
	r := srvRegion{N: [3]int{3, 4, 2}, T: [3]float64{1, 2, 3}, MMPV: 1}
	box := [][]core.Solid{{{Kind: "box", Size: [3]float64{2, 2, 2}, Pos: [3]float64{1.5, 1.5, 1}}}}
	for i, k := range append([]string{"disk", "get", "empty"}, junk...) {
		for _, stored := range []bool{true, false} {
			c := srvCase{Regions: []srvRegion{r}}
			if stored {
				c.Ops = append(c.Ops, srvOp{Kind: "add", Solids: box})
			}
			for n := 0; n < 420; n++ { // more than there are file descriptors
				op := srvOp{Kind: "junk", Junk: k, Verb: n % 3, At: i + n, V: -1, F: 1e6}
				switch k {
				case "disk":
					op = srvOp{Kind: k, Solids: box, Verb: n & 1, At: n % 5}
				case "get":
					op = srvOp{Kind: k}
				case "empty":
					op = srvOp{Kind: []string{"add", "sub"}[n&1], Solids: [][]core.Solid{nil}}
				}
				c.Ops = append(c.Ops, op)
			}
			c.Ops = append(c.Ops, srvOp{Kind: "sub", Solids: box}, srvOp{Kind: "add", Solids: box})
			out = append(out, c)
		}
	}
	return out
}

// manyTris are histories with meshes of many triangles in requests and replies.
func manyTris(thorough bool) (out []srvCase) {
	fine := func(n int, size, pos [3]float64) [][]core.Solid {
		return [][]core.Solid{{{Kind: "fine", N: n, Size: size, Pos: pos}}}
	}
	for i, n := range []int{82, 79} { // a box follows 80688 and 74892 triangles
		r := srvRegion{N: [3]int{8, 5, 4}, T: [3]float64{1, 2, 3}, MMPV: 1}
		last := core.Solid{Kind: "box", Size: [3]float64{2, 3, 3}, Pos: [3]float64{6.3, 2.2, 2.1}}
		add := fine(n, [3]float64{3, 4, 3}, [3]float64{2.3, 2.4, 2.2})
		add[0] = append(add[0], last)
		out = append(out, srvCase{Regions: []srvRegion{r}, Ops: []srvOp{{Kind: "add", Solids: add}, {Kind: "get"}}})
		if i == 1 {
			out = append(out, srvCase{Regions: []srvRegion{r}, Ops: []srvOp{
				{Kind: "add", Solids: [][]core.Solid{{{Kind: "box", Size: [3]float64{9, 6, 5}, Pos: [3]float64{4, 2.5, 2}}}}},
				{Kind: "sub", Solids: add}, {Kind: "get"},
			}})
		}
	}
	for i, n := range []int{74, 75} { // 65712 and 67500 triangles
		r := srvRegion{N: [3]int{6, 5, 4}, T: [3]float64{1, 2, 3}, MMPV: 1}
		out = append(out, srvCase{Regions: []srvRegion{r}, Ops: []srvOp{
			{Kind: "add", Solids: fine(n, [3]float64{5, 4, 3}, [3]float64{3, 2.5, 2})},
			{Kind: []string{"sub", "add"}[i], Solids: fine(n+1, [3]float64{2, 2, 4}, [3]float64{1.25, 3, 3})},
		}})
	}
	// Plates with more than 65536 triangles on their surface.
	plates := [][3]int{{150, 120, 1}, {1, 129, 129}}
	if thorough {
		plates = append(plates, [3]int{200, 2, 200}, [3]int{40, 400, 3}, [3]int{257, 256, 1})
	}
	for _, n := range plates {
		r := srvRegion{N: n, T: [3]float64{-8, 4, 0}, MMPV: 0.5}
		box := func(lo, hi float64) [][]core.Solid {
			s := core.Solid{Kind: "box"}
			for i := range s.Size {
				s.Size[i] = math.Ceil(float64(n[i]) * (hi - lo))
				s.Pos[i] = float64(n[i])*lo + s.Size[i]/2
			}
			return [][]core.Solid{{s}}
		}
		out = append(out, srvCase{Regions: []srvRegion{r}, Ops: []srvOp{
			{Kind: "add", Solids: box(-0.01, 1.02)}, {Kind: "sub", Solids: box(0.25, 0.3125)}, {Kind: "get"},
		}})
	}
	return out
}

// limitFiles sets the largest size to which the process can write files.
func limitFiles(pid int, n uint64) {
	var old [2]uint64
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 1 /* RLIMIT_FSIZE */, 0, uintptr(unsafe.Pointer(&old)), 0, 0); e == syscall.ESRCH {
		return // seen by the caller
	} else if e != 0 {
		core.Infra("prlimit: %v", e)
	}
	lim := [2]uint64{min(n, old[1]), old[1]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 1, uintptr(unsafe.Pointer(&lim)), 0, 0, 0); e != 0 && e != syscall.ESRCH {
		core.Infra("prlimit: %v", e)
	}
}

func c27() *core.Prop {
	run := func(x *core.Ctx, c srvCase) error {
		var addr string
		var cmd *exec.Cmd
		var stderr bytes.Buffer
		ended := make(chan struct{})
		for try := 0; addr == ""; try++ {
			a := freePort(loopback)
			cmd = exec.Command(filepath.Join(x.BinDir, "stldice-slave"), "-port", a)
			cmd.Dir = x.Dir()
			cmd.Stdout, cmd.Stderr = &stderr, &stderr
			if err := cmd.Start(); err != nil {
				core.Infra("starting stldice-slave: %v", err)
			}
			core.LimitMemory(cmd.Process.Pid)
			core.LimitFiles(cmd.Process.Pid)
			done := make(chan struct{})
			go func() { cmd.Wait(); close(done) }()
			for i := 0; i < 1500 && addr == ""; i++ {
				if l, err := net.Dial("tcp", a); err == nil {
					l.Close()
					addr = a
				} else {
					time.Sleep(4 * time.Millisecond)
				}
			}
			if addr == "" && try == 2 {
				return core.Failf("stldice-slave does not listen on the address given by -port: %s", core.Tail(stderr.String()))
			}
			if addr == "" {
				cmd.Process.Kill()
				<-done
			}
			ended = done
		}
		x.Cleanup(func() { cmd.Process.Kill(); <-ended })
		alive := func(after string) error {
			select {
			case <-ended:
				return core.Failf("stldice-slave ended (%v) after %s: %s", cmd.ProcessState, after, core.Tail(stderr.String()))
			default:
				return nil
			}
		}
		conn, err := grpc.Dial(addr, grpc.WithInsecure(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30)))
		if err != nil {
			core.Infra("dial: %v", err)
		}
		defer conn.Close()
		cl := pb.NewSTLDiceClient(conn)
		call := func(verb int, r *pb.VoxelRegion, stl []byte) ([]byte, error) {
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			var err error
			var out []byte
			switch verb {
			case 0:
				_, err = cl.AddSTLMesh(ctx, &pb.AddSTLMeshRequest{VoxelRegion: r, StlFile: stl})
			case 1:
				_, err = cl.SubSTLMesh(ctx, &pb.SubSTLMeshRequest{VoxelRegion: r, StlFile: stl})
			default:
				var g *pb.GetSTLMeshReply
				g, err = cl.GetSTLMesh(ctx, &pb.GetSTLMeshRequest{VoxelRegion: r})
				out = g.GetStlFile()
			}
			if ctx.Err() != nil {
				err = fmt.Errorf("no answer within a minute: %v", err)
			}
			if err != nil { // give a dying process the time to be seen
				select {
				case <-ended:
				case <-time.After(3 * time.Millisecond):
				}
			}
			return out, err
		}
		models := make([]map[core.P]bool, len(c.Regions))
		same := func(i int) int { // regions may coincide
			for k := range c.Regions {
				if c.Regions[k] == c.Regions[i] {
					return k
				}
			}
			return i
		}
		get := func(what string, i int) error {
			r := c.Regions[i]
			b, err := call(2, r.pb(), nil)
			if e := alive(what); e != nil {
				return e
			}
			want := models[same(i)]
			if want == nil {
				if err == nil {
					return core.Failf("%s: the mesh of a region that is not stored is answered with %d bytes", what, len(b))
				}
				return nil
			}
			if err != nil {
				return core.Failf("%s: GetSTLMesh of a stored region of %d voxels: %v", what, len(want), err)
			}
			tris, err := core.DecodeSTL(b)
			if err != nil {
				return core.Failf("%s: the reply is not a binary STL: %v", what, err)
			}
			vox := core.ToVoxels(tris, r.T, r.MMPV)
			if err := core.ClosedMesh(vox, 2, 1e-3); err != nil {
				return core.Failf("%s: region of %v voxels: %v", what, r.N, err)
			}
			if err := windings(vox, want); err != nil {
				return core.Failf("%s: region of %v voxels, %d of them stored: %v", what, r.N, len(want), err)
			}
			if len(want) > 0 {
				x.NonTrivial()
			} else {
				x.Label("empty model")
			}
			return nil
		}
		encode := func(op srvOp, tris []core.Tri) []byte {
			if op.ASCII {
				return core.RespellASCII(core.EncodeASCIISTL(tris), len(tris)/4*5+op.Region)
			}
			return core.EncodeSTL(tris)
		}
		apply := func(i int, verb int, cells map[core.P]bool) {
			if models[i] == nil {
				models[i] = map[core.P]bool{}
			}
			for p := range cells {
				if verb == 0 {
					models[i][p] = true
				} else {
					delete(models[i], p)
				}
			}
		}
		var hist []string
		for _, op := range c.Ops {
			r := c.Regions[op.Region]
			at := same(op.Region)
			hist = append(hist, fmt.Sprintf("%s%s %d", op.Kind, op.Junk, at))
			what := "after " + strings.Join(hist, ", ")
			switch op.Kind {
			case "add", "sub":
				verb := 0
				if op.Kind == "sub" {
					verb = 1
				}
				tris := r.tris(op.Solids[0])
				cells, err := r.cells(tris)
				if err != nil {
					return core.Failf("Voxelize: %v", err)
				}
				_, err = call(verb, r.pb(), encode(op, tris))
				if e := alive(what); e != nil {
					return e
				}
				if verb == 1 && models[at] == nil {
					if err == nil {
						return core.Failf("%s: subtracting from a region that is not stored is reported as done", what)
					}
					break
				}
				if err != nil {
					return core.Failf("%s: %v", what, err)
				}
				apply(at, verb, cells)
			case "burst":
				if op.Verb == 1 && models[at] == nil {
					op.Verb = 0
				}
				var wg sync.WaitGroup
				errs := make([]error, len(op.Solids))
				for i, s := range op.Solids {
					tris := r.tris(s)
					cells, err := r.cells(tris)
					if err != nil {
						return core.Failf("Voxelize: %v", err)
					}
					apply(at, op.Verb, cells)
					wg.Add(1)
					go func() {
						defer wg.Done()
						_, errs[i] = call(op.Verb, r.pb(), encode(op, tris))
						call(2, r.pb(), nil)
					}()
				}
				wg.Wait()
				if e := alive(what); e != nil {
					return e
				}
				for _, err := range errs {
					if err != nil {
						return core.Failf("%s: %v", what, err)
					}
				}
				x.Label("concurrent")
			case "disk": // files cannot grow beyond a few bytes
				tris := r.tris(op.Solids[0])
				cells, err := r.cells(tris)
				if err != nil {
					return core.Failf("Voxelize: %v", err)
				}
				limitFiles(cmd.Process.Pid, uint64(op.At))
				_, err = call(op.Verb, r.pb(), encode(op, tris))
				limitFiles(cmd.Process.Pid, math.MaxUint64)
				if e := alive(what); e != nil {
					return e
				}
				if err != nil {
					x.Label("not stored")
					break // the model is what it was
				}
				if op.Verb == 1 && models[at] == nil {
					return core.Failf("%s: subtracting from a region that is not stored is reported as done", what)
				}
				apply(at, op.Verb, cells)
			case "get":
			case "junk":
				// On a region of its own, unless it cannot be carried out.
				other := srvRegion{N: [3]int{4, 3, 2}, T: [3]float64{500, 500, 500}, MMPV: 1}
				box := other.tris([]core.Solid{{Kind: "box", Size: [3]float64{2, 2, 2}, Pos: [3]float64{1.5, 1.5, 1}}})
				vr := other.pb()
				payload := core.EncodeSTL(box)
				refuse := false
				tri, v, ax := op.At%len(box), op.At%3, op.At/3%3
				switch op.Junk {
				case "bytes":
					payload = op.Bytes
				case "short":
					payload = payload[:len(payload)-1-op.At%(len(payload)-1)]
					refuse = op.Verb != 2
				case "count":
					payload[80+op.At%4] ^= byte(1 << (op.At % 8))
					refuse = op.Verb != 2
				case "ascii":
					payload = []byte("solid " + strings.Repeat("vertex 1 2 3\n", op.At))
					refuse = op.Verb != 2
				case "asciicut":
					payload = core.EncodeASCIISTL(box)
					payload = core.CutASCII(payload, op.At*bytes.LastIndex(payload, []byte("endsolid"))/400)
					refuse = op.Verb != 2
				case "asciibad":
					payload = bytes.ReplaceAll(core.EncodeASCIISTL(box), []byte("502.5"), []byte([]string{"x", "1e999", "NaN", "--1", "0x1p-2", "1,5"}[op.At%6]))
					refuse = op.Verb != 2 && op.At%6 != 2 && op.At%6 != 4
				case "nan":
					box[tri][v][ax] = math.NaN()
					payload = core.EncodeSTL(box)
				case "inf":
					box[tri][v][ax] = math.Inf(1 - 2*(op.At%2))
					payload = core.EncodeSTL(box)
				case "far":
					box[tri][v][ax] = op.F
					payload = core.EncodeSTL(box)
				case "flat":
					payload = core.EncodeSTL(box[:1+op.At%3])
				case "noregion":
					vr, refuse = nil, true
				case "dims":
					refuse = true
					if n := wrapping[op.At/3%len(wrapping)]; op.At/3%2 == 1 {
						vr.Nx, vr.Ny, vr.Nz = n[0], n[1], n[2]
						break
					}
					*[]*int64{&vr.Nx, &vr.Ny, &vr.Nz}[op.At%3] = op.V
				case "point":
					vr.Urx, vr.Ury, vr.Urz = vr.Llx, vr.Lly, vr.Llz
					refuse = true
				case "corner":
					f := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 1e300}[op.At/6%6]
					*[]*float64{&vr.Llx, &vr.Lly, &vr.Llz, &vr.Urx, &vr.Ury, &vr.Urz}[op.At%6] = f
				case "nofile":
					payload = nil
					refuse = op.Verb != 2
				}
				b, err := call(op.Verb, vr, payload)
				if e := alive(fmt.Sprintf("%s (%s)", what, op.Junk)); e != nil {
					return e
				}
				if err != nil && strings.Contains(err.Error(), "no answer within") {
					return core.Failf("%s (%s): %v", what, op.Junk, err)
				}
				if err == nil && refuse {
					return core.Failf("%s: a request that cannot be carried out (%s, %d) is reported as done (%d bytes)", what, op.Junk, op.V, len(b))
				}
				x.Label("%s", op.Junk)
			}
			if err := get(what, op.Region); err != nil {
				return err
			}
		}
		for i := range c.Regions {
			if err := get("after "+strings.Join(hist, ", "), i); err != nil {
				return err
			}
		}
		return nil
	}
	return &core.Prop{
		ID:    "C27",
		Rule:  "histories of up to nine additions, subtractions (one by one or several at once), queries, storage failures and malformed requests of 15 kinds on one to three regions of up to 12 voxels per axis, of sizes from 0.0001 to 48 mm and possibly apart by less than a voxel, with 8 to 257 models stored side by side (`crowd`), some meshes without triangles, 420 repetitions of one failing, malformed or void request of 18 kinds followed by good ones (`again`), and fixed ones with meshes of more than 65536 triangles in requests or replies, against the real server process; every region is asked for after every step; non-trivial: a stored model with voxels is returned",
		Tools: []string{"./server/stldice-slave"},
		Assumptions: []string{
			"voxels are those of binvox.Voxelize on the region's lattice (decided by C06 and C07), at dyadic coordinates, so that arithmetic is exact",
			"a malformed request to an own region is refused if its STL file is not a complete one or its region is none; otherwise it may be refused or carried out, but must be answered",
		},
		Arms:      []*core.Arm{core.NewArm("histories", 900, 20000, genSrv, run), core.NewArm("crowd", 18, 400, genCrowdSrv, run), core.Fixed(core.NewArm("again", 0, 0, nil, run), again), core.Fixed(core.NewArm("large", 0, 0, nil, run), manyTris)},
		CaseLimit: 3 * time.Minute,
	}
}
