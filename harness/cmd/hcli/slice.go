package main

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"math"
	"net"
	"sync"
	"time"

	"github.com/gmlewis/stldice/v4/stl2svx/agent"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"golang.org/x/net/context"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// slices is what the layers of a cut model must look like.
type slices struct {
	dim    int
	n      [3]int // cells of the base
	hi     [3]int // the same where rounding may give one more
	base   map[core.P]bool
	cut    map[core.P]bool
	stable []func(core.P) bool
	lo     [3]float64
	mmpv   float64
}

// slices voxelizes the models on the base's lattice.
func (c stldiceCase) slices(tris [][]core.Tri) (*slices, error) {
	lo, hi := core.Bounds(tris[0])
	size := max(hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2])
	s := &slices{dim: c.Dim, lo: lo, mmpv: size / float64(c.Dim), cut: map[core.P]bool{}}
	l := lattice{t: lo, mmpv: s.mmpv}
	for i := range s.n {
		v := (hi[i] - lo[i]) / s.mmpv
		s.n[i] = int(math.Ceil(v - 1e-6))
		s.hi[i] = int(math.Ceil(v + 1e-6))
		l.n[i] = s.hi[i] + 1
	}
	for i, t := range tris {
		cells, st, err := l.voxels(t)
		if err != nil {
			return nil, core.Failf("Voxelize: %v", err)
		}
		s.stable = append(s.stable, st)
		if i == 0 {
			s.base = cells
			continue
		}
		for p := range cells {
			s.cut[p] = true
		}
	}
	return s, nil
}

// check compares the image of a layer; z outside of the model means a black image.
func (s *slices) check(what string, z int, b []byte) (white int, err error) {
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return 0, core.Failf("%s: layer %d: %v", what, z, err)
	}
	if sz := img.Bounds(); sz.Min != (image.Point{}) || sz.Dx() != s.dim+2 || sz.Dy() != s.dim+2 {
		return 0, core.Failf("%s: layer %d: the image is %v, want %d pixels a side", what, z, sz, s.dim+2)
	}
	gray, _ := img.(*image.Gray)
	for px := 0; px < s.dim+2; px++ {
		for py := 0; py < s.dim+2; py++ {
			var v uint32
			if gray != nil {
				v = uint32(gray.Pix[gray.PixOffset(px, py)]) * 0x101
			} else {
				r, g, bl, a := img.At(px, py).RGBA()
				if r != g || r != bl || a != 0xffff {
					return 0, core.Failf("%s: layer %d: pixel (%d,%d) is not grey", what, z, px, py)
				}
				v = r
			}
			if v != 0 && v != 0xffff {
				return 0, core.Failf("%s: layer %d: pixel (%d,%d) is neither black nor white", what, z, px, py)
			}
			p := core.P{px - 1, s.dim - py, z}
			in := z >= 0 && z < s.n[2] && p[0] >= 0 && p[1] >= 0 && p[0] < s.n[0] && p[1] < s.n[1]
			want := in && s.base[p] && !s.cut[p]
			if v != 0 {
				white++
			}
			if want == (v != 0) {
				continue
			}
			if !in && z >= 0 && z < s.hi[2] && p[0] >= 0 && p[1] >= 0 && p[0] < s.hi[0] && p[1] < s.hi[1] && p[0] < s.dim && p[1] < s.dim {
				continue // rounding gave one cell more
			}
			settled := true
			if in {
				for _, st := range s.stable {
					settled = settled && st(p)
				}
			}
			if settled {
				return 0, core.Failf("%s: layer %d: pixel (%d,%d), cell %v of %v, is white=%v (inside=%v base=%v cut=%v)", what, z, px, py, p, s.n, v != 0, in, s.base[p], s.cut[p])
			}
		}
	}
	return white, nil
}

func pbSTL(tris []core.Tri) *pb.STLFile {
	v := func(p core.Vec) *pb.Vertex { return &pb.Vertex{X: p[0], Y: p[1], Z: p[2]} }
	f := &pb.STLFile{}
	for _, t := range tris {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(t[0]), V2: v(t[1]), V3: v(t[2])})
	}
	return f
}

type nullMaster struct{}

func (nullMaster) NewJob(context.Context, *pb.NewJobRequest) (*pb.NewJobResponse, error) {
	return nil, fmt.Errorf("not here")
}
func (nullMaster) RegisterAgent(context.Context, *pb.RegisterAgentRequest) (*pb.RegisterAgentResponse, error) {
	return &pb.RegisterAgentResponse{}, nil
}

// theAgent is an agent registered with a master that has no work.
var theAgent = sync.OnceValue(func() pb.AgentServer {
	lis, err := net.Listen("tcp", loopback+":0")
	if err != nil {
		core.Infra("listen: %v", err)
	}
	s := grpc.NewServer()
	pb.RegisterMasterServer(s, nullMaster{})
	go s.Serve(lis)
	for try := 0; try < 3; try++ {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		defer cancel()
		var a pb.AgentServer
		if a, err = agent.New(ctx, "127.0.0.1:1", lis.Addr().String()); err == nil {
			return a
		}
	}
	panic(fmt.Sprintf("an agent cannot register with a master that accepts everything: %v", err))
})

func (c stldiceCase) job(tris [][]core.Tri) *pb.NewJobRequest {
	req := &pb.NewJobRequest{Dim: int64(c.Dim), NX: int64(c.Div[0]), NY: int64(c.Div[1]), NZ: int64(c.Div[2]), OutPrefix: "out"}
	for _, t := range tris {
		req.StlFiles = append(req.StlFiles, pbSTL(t))
	}
	return req
}

type sliceCase struct {
	Model  stldiceCase `json:"model"`
	Layers []int       `json:"layers"`        // modulo the layers; 100 and more, and -1 to -9: outside; from -10 down: as -10-z
	Bad    []badSlice  `json:"bad,omitempty"` // requests in between
}

type manyCase struct {
	Models []stldiceCase `json:"models"`
	Asks   [][2]int      `json:"asks"` // model and layer
}

type badSlice struct {
	Kind string  `json:"kind"`
	V    int64   `json:"v"`
	F    float64 `json:"f"`
	At   int     `json:"at"`
}

// genCutModel draws any dimension and divisions, and makes cuts more common.
func genCutModel(t *rapid.T) stldiceCase {
	c := genStldice(t)
	c.MBB, c.Twice, c.Redo, c.Dir = 0, false, nil, ""
	if rapid.Bool().Draw(t, "free") { // a dimension that the divisions need not divide
		c.Dim = rapid.IntRange(3, 24).Draw(t, "freedim")
		long := rapid.IntRange(0, 2).Draw(t, "freelong")
		for i := range c.Ext {
			c.Ext[i] = float64(c.Dim)
			if i != long {
				c.Ext[i] = float64(rapid.IntRange(4, 4*c.Dim).Draw(t, "freeext")) / 4
			}
			c.Div[i] = rapid.IntRange(1, max(1, min(7, int(c.Ext[i])))).Draw(t, "freediv")
		}
		for k := range c.Models {
			c.Models[k].Solids = core.GenSolids(t, [3]int{int(c.Ext[0]), int(c.Ext[1]), int(c.Ext[2])}, rapid.SampledFrom([]float64{2, 0.5}).Draw(t, "lo"), 18, true)
		}
	}
	return c
}

// fits: the divisions are at most as many as the cells, with certainty.
func (s *slices) fits(div [3]int) bool {
	for i := range div {
		if div[i] > s.n[i] || s.n[i] < 1 {
			return false
		}
	}
	return true
}

func c22() *core.Prop {
	gen := func(t *rapid.T) sliceCase {
		c := sliceCase{Model: genCutModel(t)}
		c.Layers = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 30), rapid.IntRange(0, 30), rapid.IntRange(0, 30), rapid.SampledFrom([]int{-1, -2, 100, 101, 105})), 2, 6).Draw(t, "layers")
		return c
	}
	genLarge := func(t *rapid.T) sliceCase {
		c := sliceCase{Model: genCutModel(t)}
		genTall(t, &c.Model)
		for i := range c.Model.Div { // many regions along the long axis
			if c.Model.Ext[i] > 100 {
				c.Model.Div[i] = rapid.SampledFrom([]int{1, 2, 3, 7, 50, 99, 100, 101, 127}).Draw(t, "largediv")
			}
		}
		for k := rapid.IntRange(2, 5).Draw(t, "layers"); k > 0; k-- {
			c.Layers = append(c.Layers, rapid.IntRange(0, 300).Draw(t, "layer"))
		}
		for i, z := range c.Layers { // 100 to 107 mean layers beyond the model
			if z >= 100 && c.Model.Ext[2] > 100 {
				c.Layers[i] = -10 - z
			}
		}
		return c
	}
	genCrowded := func(t *rapid.T) sliceCase {
		c := sliceCase{Model: genCutModel(t)}
		genCrowd(t, &c.Model, []int{4, 8, 9, 16, 17, 33, 65, 101, 130, 257, 300})
		c.Layers = rapid.SliceOfN(rapid.IntRange(0, 12), 1, 3).Draw(t, "layers")
		return c
	}
	prepare := func(c sliceCase) ([][]core.Tri, *slices, error) {
		var tris [][]core.Tri
		for i, m := range c.Model.Models {
			tris = append(tris, c.Model.tris(m, c.Model.Snap && i == 0))
		}
		s, err := c.Model.slices(tris)
		return tris, s, err
	}
	ask := func(req *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer cancel()
		resp, err := theAgent().SliceJob(ctx, req)
		if err == nil && resp.GetError() != "" {
			err = fmt.Errorf("%s", resp.GetError())
		}
		return resp, err
	}
	run := func(x *core.Ctx, c sliceCase) error {
		tris, s, err := prepare(c)
		if err != nil {
			return err
		}
		m := c.Model
		what := fmt.Sprintf("slice at dim %d of a base of %v cells in %v regions with %d cuts", m.Dim, s.n, m.Div, len(m.Models)-1)
		if !s.fits(m.Div) {
			x.Label("too many divisions")
			return nil
		}
		req := m.job(tris)
		cut := false
		for _, z := range c.Layers {
			switch {
			case z <= -10:
				z = (-10 - z) % s.n[2]
			case z >= 100:
				z += s.n[2] - 100
			case z >= 0:
				z %= s.n[2]
			}
			resp, err := ask(&pb.SliceJobRequest{NewJobRequest: req, Z: int64(z)})
			if err != nil {
				if z < 0 || z >= s.n[2] { // no such layer
					continue
				}
				return core.Failf("%s: layer %d: error %v", what, z, err)
			}
			white, err := s.check(what, z, resp.GetPngFile())
			if err != nil {
				return err
			}
			if white > 0 {
				x.NonTrivial()
			}
			if z < 0 || z >= s.n[2] {
				x.Label("no such layer")
			}
			for p := range s.base {
				cut = cut || p[2] == z && s.cut[p]
			}
		}
		if cut {
			x.Label("cut")
		}
		if len(tris) > 2 {
			x.Label("several cuts")
		}
		if m.Div[2] > 1 {
			x.Label("divided in z")
		}
		for i := range m.Div {
			if s.n[i]%m.Div[i] != 0 {
				x.Label("size not a multiple")
				break
			}
		}
		return nil
	}
	genMany := func(t *rapid.T) manyCase {
		var c manyCase
		for k := rapid.IntRange(1, 3).Draw(t, "models"); k > 0; k-- {
			c.Models = append(c.Models, genCutModel(t))
		}
		// Several times as many requests as would be worked on at once.
		asks := rapid.IntRange(2, 24).Draw(t, "asks")
		if rapid.IntRange(0, 19).Draw(t, "lots") == 0 {
			for len(c.Models) < 12 {
				c.Models = append(c.Models, genCutModel(t))
			}
			asks = rapid.SampledFrom([]int{40, 70, 130, 260}).Draw(t, "asks")
		}
		for k := asks; k > 0; k-- {
			c.Asks = append(c.Asks, [2]int{rapid.IntRange(0, len(c.Models)-1).Draw(t, "model"), rapid.IntRange(0, 30).Draw(t, "layer")})
		}
		return c
	}
	runMany := func(x *core.Ctx, c manyCase) error {
		type work struct {
			s   *slices
			req *pb.NewJobRequest
		}
		var works []work
		for _, m := range c.Models {
			tris, s, err := prepare(sliceCase{Model: m})
			if err != nil {
				return err
			}
			if !s.fits(m.Div) {
				m.Div = [3]int{1, 1, 1}
			}
			if s.fits(m.Div) {
				works = append(works, work{s, m.job(tris)})
			}
		}
		if len(works) == 0 {
			return nil
		}
		type answer struct {
			white int
			err   error
		}
		answers := make([]answer, len(c.Asks))
		images := make([][]byte, len(c.Asks))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, a := range c.Asks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				w := works[a[0]%len(works)]
				resp, err := ask(&pb.SliceJobRequest{NewJobRequest: w.req, Z: int64(a[1] % w.s.n[2])})
				images[i], answers[i].err = resp.GetPngFile(), err
			}()
		}
		close(start)
		wg.Wait()
		// The images are looked at when all are there: none may have changed.
		white := 0
		for i, a := range c.Asks {
			w := works[a[0]%len(works)]
			z := a[1] % w.s.n[2]
			what := fmt.Sprintf("request %d of %d at once, slice at dim %d of a base of %v cells", i, len(c.Asks), w.s.dim, w.s.n)
			if err := answers[i].err; err != nil {
				return core.Failf("%s: layer %d: error %v", what, z, err)
			}
			n, err := w.s.check(what, z, images[i])
			if err != nil {
				return err
			}
			white += n
		}
		if white > 0 {
			x.NonTrivial()
		}
		x.Label("at once")
		if len(works) > 1 {
			x.Label("several models")
		}
		return nil
	}
	kinds := []string{"nojob", "nofiles", "empty", "nofile", "point", "dim", "nx", "ny", "nz", "nan", "inf", "cutnan", "cutinf", "vertex", "cutvertex", "triangle", "cutempty", "flat", "far", "hugez"}
	genBad := func(t *rapid.T) sliceCase {
		c := sliceCase{Model: genCutModel(t)}
		c.Layers = []int{rapid.IntRange(0, 12).Draw(t, "layer")}
		for k := rapid.IntRange(1, 4).Draw(t, "bads"); k > 0; k-- {
			b := badSlice{Kind: rapid.SampledFrom(kinds).Draw(t, "bad")}
			b.V = rapid.SampledFrom([]int64{0, -1, -3, math.MinInt64, math.MaxInt64, 1 << 40, 100000, 1 << 31, 1 << 32, 1<<32 + 1}).Draw(t, "v")
			b.F = rapid.SampledFrom([]float64{1e6, 1e9, -1e12, 1e20, -1e38, 1e300, math.MaxFloat64}).Draw(t, "f")
			b.At = rapid.IntRange(0, 8).Draw(t, "at")
			c.Bad = append(c.Bad, b)
		}
		return c
	}
	// The same unusable request over and over: nothing of it may stay.
	again := func(bool) (out []sliceCase) {
		for i, k := range kinds {
			c := sliceCase{Model: plain(5), Layers: []int{2}}
			for n := 0; n < 150; n++ {
				c.Bad = append(c.Bad, badSlice{Kind: k, V: -1, F: 1e6, At: i + n})
			}
			out = append(out, c)
		}
		return out
	}
	runBad := func(x *core.Ctx, c sliceCase) error {
		tris, s, err := prepare(c)
		if err != nil {
			return err
		}
		m := c.Model
		if !s.fits(m.Div) {
			m.Div = [3]int{1, 1, 1}
		}
		if !s.fits(m.Div) {
			return nil
		}
		for _, b := range c.Bad {
			req := &pb.SliceJobRequest{NewJobRequest: m.job(tris)}
			j := req.NewJobRequest
			refuse := true
			tri := func(i int) *pb.Triangle { ts := j.StlFiles[i].Triangles; return ts[b.At%len(ts)] }
			cut := func() *pb.Triangle {
				if n := len(j.StlFiles); n < 2 || len(j.StlFiles[n-1].Triangles) == 0 {
					j.StlFiles = append(j.StlFiles, pbSTL(tris[0]))
				}
				return tri(len(j.StlFiles) - 1)
			}
			set := func(v float64) func(t *pb.Triangle) {
				return func(t *pb.Triangle) {
					p := []*pb.Vertex{t.V1, t.V2, t.V3}[b.At%3]
					*[]*float64{&p.X, &p.Y, &p.Z}[b.At/3%3] = v
				}
			}
			switch b.Kind {
			case "nojob":
				req.NewJobRequest = nil
			case "nofiles":
				j.StlFiles = nil
			case "empty":
				j.StlFiles[0].Triangles = nil
			case "nofile":
				j.StlFiles[0] = nil
			case "point":
				v := &pb.Vertex{X: 1, Y: 2, Z: b.F}
				j.StlFiles[0].Triangles = []*pb.Triangle{{V1: v, V2: v, V3: v}}
			case "dim":
				j.Dim = b.V
			case "nx":
				j.NX = b.V
			case "ny":
				j.NY = b.V
			case "nz":
				j.NZ = b.V
			case "nan":
				set(math.NaN())(tri(0))
			case "inf":
				set(math.Inf(1 - 2*(b.At%2)))(tri(0))
			case "cutnan":
				set(math.NaN())(cut())
			case "cutinf":
				set(math.Inf(1 - 2*(b.At%2)))(cut())
			default: // may be answered either way, but must be answered
				refuse = false
				switch b.Kind {
				case "vertex":
					tri(0).V1 = nil
				case "cutvertex":
					cut().V3 = nil
				case "triangle":
					j.StlFiles[0].Triangles[b.At%len(j.StlFiles[0].Triangles)] = nil
				case "cutempty":
					j.StlFiles = append(j.StlFiles, &pb.STLFile{}, nil)
				case "flat":
					j.StlFiles[0].Triangles = j.StlFiles[0].Triangles[:1]
				case "far":
					v := cut()
					switch b.At % 3 {
					case 0:
						v.V1.X = b.F
					case 1:
						v.V2.Y = b.F
					default:
						v.V3.Z, v.V1.X = b.F, -b.F
					}
				case "hugez":
					req.Z = b.V
				}
			}
			resp, err := ask(req)
			if err == nil && refuse {
				return core.Failf("a request that cannot be processed (%s, %d, %v) is answered with an image of %d bytes", b.Kind, b.V, b.F, len(resp.GetPngFile()))
			}
			x.Label("%s", b.Kind)
		}
		x.NonTrivial()
		what := fmt.Sprintf("slice after bad requests at dim %d of a base of %v cells in %v regions", m.Dim, s.n, m.Div)
		z := c.Layers[0] % s.n[2]
		resp, err := ask(&pb.SliceJobRequest{NewJobRequest: m.job(tris), Z: int64(z)})
		if err != nil {
			return core.Failf("%s: layer %d: error %v", what, z, err)
		}
		_, err = s.check(what, z, resp.GetPngFile())
		return err
	}
	return &core.Prop{
		ID:   "C22",
		Rule: "bases and up to two (`crowd`: up to 300) cuts of one to three solids each (boxes, prisms, spheres, tori, cube clusters, rotated or on the lattice), a tenth of the cuts without triangles, resolutions up to 24 voxels, up to 7 divisions per axis that need not divide it, layers inside and outside of the model; tall thin models cut into up to 127 divisions; models of up to 77000 triangles; requests of 20 unusable or odd kinds, also 150 of a kind, followed by a good one; up to 24 requests for slices of up to three models at once, some 260 of twelve; non-trivial: an image with a white pixel, or an unusable request",
		Assumptions: []string{
			"voxels are those of binvox.Voxelize on the base's lattice (decided by C06 and C07); a voxel whose state changes under a shift of 1e-8 voxel is left open",
			"a layer outside of the model may be refused or black",
		},
		Arms: []*core.Arm{
			core.NewArm("slices", 6400, 60000, gen, run),
			core.Fixed(core.NewArm("large", 200, 3000, genLarge, run), func(bool) []sliceCase { return []sliceCase{{Model: broad(), Layers: []int{0, 100}}, {Model: fine(3, 80), Layers: []int{0, 2, 4}}, {Model: fine(80, 80), Layers: []int{1, 3}}} }),
			core.NewArm("crowd", 96, 2000, genCrowded, run),
			core.Fixed(core.NewArm("requests", 1250, 8000, genBad, runBad), again),
			core.NewArm("parallel", 600, 8000, genMany, runMany),
		},
	}
}
