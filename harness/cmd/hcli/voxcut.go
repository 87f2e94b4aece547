package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"path/filepath"

	"pgregory.net/rapid"
	"verif/harness/core"
)

// cutModel is a cut on the lattice of the base.
type cutModel struct {
	Off  [3]int `json:"off"` // position of its origin in base cells
	N    [3]int `json:"n"`
	Runs []int  `json:"runs"`
	Bad  string `json:"bad,omitempty"` // missing, dir, header, values: unreadable
}

type cutCase struct {
	Base     core.Model `json:"base"`
	Cuts     []cutModel `json:"cuts"`
	S        [3]int     `json:"s"`
	C        [3]int     `json:"c"`
	BadBase  bool       `json:"badBase,omitempty"`
	STL      bool       `json:"stl,omitempty"`
	VOX      bool       `json:"vox,omitempty"`
	Manifold bool       `json:"manifold,omitempty"`
	Smooth   bool       `json:"smooth,omitempty"`
	NoBinvox bool       `json:"noBinvox,omitempty"`
	Split    []int      `json:"split,omitempty"`
	Old      int        `json:"old,omitempty"`   // bytes in the outputs beforehand
	After    bool       `json:"after,omitempty"` // the base's name comes after those of the cuts
	In       int        `json:"in,omitempty"`    // replace the base (1) or a cut (2 and on) by the result
	Again    []int      `json:"again,omitempty"` // cuts that are named twice
}

func (m cutModel) grid(base *core.Grid) *core.Grid {
	n := max(m.N[0], m.N[1], m.N[2])
	mmpv := base.MMPV()
	var t [3]float64
	for i := range t {
		t[i] = base.T[i] + float64(m.Off[i])*mmpv
	}
	return core.Model{N: m.N, T: t, Scale: float64(n) * mmpv, Runs: m.Runs}.Grid()
}

func (m cutModel) store(x *core.Ctx, base *core.Grid, name string, split []int) string {
	b := core.EncodeBinvox(m.grid(base), split)
	switch m.Bad {
	case "missing":
		return name
	case "dir":
		put(x, name+"/x", nil)
		return name
	case "empty":
		b = nil
	case "header":
		b = bytes.Replace(b, []byte("dim "), []byte("dims "), 1)
	case "values":
		b = append(b, 1, 255, 1, 255)
	}
	put(x, name, b)
	return name
}

// difference is the expected result, in base indices.
func difference(c cutCase) (base *core.Grid, left map[core.P]bool) {
	base = c.Base.Grid()
	left = core.Windowed(base, c.S, c.C).Cells
	for _, m := range c.Cuts {
		if m.Bad != "" {
			continue
		}
		for p := range m.grid(base).Cells {
			delete(left, core.P{p[0] + m.Off[0], p[1] + m.Off[1], p[2] + m.Off[2]})
		}
	}
	return base, left
}

func genBase(t *rapid.T, maxDim, maxCells int) core.Model {
	m := core.Model{N: core.GenDims(t, maxDim-4, maxCells)}
	if rapid.IntRange(0, 4).Draw(t, "tiny") < 4 {
		for i := range m.N {
			m.N[i] += rapid.IntRange(1, 4).Draw(t, "more")
		}
	}
	total := m.N[0] * m.N[1] * m.N[2]
	switch k := rapid.IntRange(0, 4).Draw(t, "fill"); {
	case k == 1:
		m.Runs = []int{0, total}
	case k == 0 && total < 600:
		m.Runs = core.GenBits(t, total)
	case k == 2: // hollow or notched block
		a := rapid.IntRange(0, total/3).Draw(t, "a")
		m.Runs = []int{0, a, rapid.IntRange(0, total/3).Draw(t, "gap"), total}
	default:
		m.Runs = core.GenRuns(t, total)
	}
	for i := range m.T {
		m.T[i] = core.GenModerate(t, "t")
	}
	if rapid.Bool().Draw(t, "dyadic") {
		m.Scale = float64(max(m.N[0], m.N[1], m.N[2])) * math.Ldexp(1, rapid.IntRange(-5, 2).Draw(t, "mmpv"))
	} else {
		m.Scale = float64(max(m.N[0], m.N[1], m.N[2])) * rapid.Float64Range(0.01, 10).Draw(t, "mmpv")
	}
	return m
}

func genCut(t *rapid.T, base core.Model) cutModel {
	c := cutModel{}
	if rapid.IntRange(0, 3).Draw(t, "same") == 0 {
		c.N = base.N
	} else {
		c.N = core.GenDims(t, 14, 900)
		for i := range c.Off {
			switch rapid.IntRange(0, 3).Draw(t, "offk") {
			case 0:
			case 1:
				c.Off[i] = rapid.IntRange(-3, 3).Draw(t, "off")
			default:
				c.Off[i] = rapid.IntRange(-c.N[i]-1, base.N[i]+1).Draw(t, "off")
			}
		}
	}
	total := c.N[0] * c.N[1] * c.N[2]
	switch k := rapid.IntRange(0, 3).Draw(t, "fill"); {
	case k == 3:
		c.Runs = []int{0, total}
	case k == 0 && total < 300:
		c.Runs = core.GenBits(t, total)
	default:
		c.Runs = core.GenRuns(t, total)
	}
	if rapid.IntRange(0, 11).Draw(t, "far") == 0 { // cuts nothing, unless its offset is cut to some bits
		c.Off[rapid.IntRange(0, 2).Draw(t, "axis")] += rapid.SampledFrom([]int{-1, 1, 1}).Draw(t, "side") * rapid.SampledFrom([]int{1 << 8, 1 << 10, 1 << 16, 1 << 21, 1 << 32}).Draw(t, "by")
	}
	if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
		c.Bad = rapid.SampledFrom([]string{"missing", "dir", "empty", "header", "values"}).Draw(t, "badk")
	}
	return c
}

// genCutCrowd draws many small cuts.
func genCutCrowd(t *rapid.T, base core.Model) (cuts []cutModel) {
	for k := rapid.SampledFrom([]int{5, 8, 9, 16, 17, 33, 65, 101, 129, 257, 300}).Draw(t, "crowd"); k > 0; k-- {
		var c cutModel
		n := 1
		for i := range c.N {
			c.N[i] = rapid.IntRange(1, 2).Draw(t, "n")
			c.Off[i] = rapid.IntRange(-1, base.N[i]).Draw(t, "off")
			n *= c.N[i]
		}
		c.Runs = []int{0, n}
		if rapid.IntRange(0, 30).Draw(t, "bad") == 0 {
			c.Bad = "missing"
		}
		cuts = append(cuts, c)
	}
	return cuts
}

func (c cutCase) baseName() string {
	if c.After {
		return "vase.binvox"
	}
	return "base.binvox"
}

func genCutCase(t *rapid.T) cutCase {
	c := cutCase{Base: genBase(t, 24, 3000)}
	for i := rapid.IntRange(0, 4).Draw(t, "cuts"); i > 0; i-- {
		c.Cuts = append(c.Cuts, genCut(t, c.Base))
	}
	if rapid.IntRange(0, 2).Draw(t, "window") > 0 {
		c.S, c.C = core.GenWindow(t, c.Base.N, false)
	}
	c.STL = rapid.IntRange(0, 3).Draw(t, "stl") == 0
	c.VOX = rapid.IntRange(0, 3).Draw(t, "vox") == 0
	c.Manifold = c.STL && rapid.IntRange(0, 3).Draw(t, "manifold") == 0
	c.Smooth = c.STL && rapid.IntRange(0, 5).Draw(t, "smooth") == 0
	c.NoBinvox = (c.STL || c.VOX) && rapid.IntRange(0, 2).Draw(t, "noBinvox") == 0
	if c.NoBinvox && rapid.IntRange(0, 2).Draw(t, "open") == 0 { // a binvox file would get that size
		c.C[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 32, 1 << 62}).Draw(t, "count")
	}
	c.After = rapid.Bool().Draw(t, "after")
	c.BadBase = rapid.IntRange(0, 40).Draw(t, "badBase") == 0
	if !c.NoBinvox && rapid.IntRange(0, 7).Draw(t, "inplace") == 0 {
		c.In = rapid.IntRange(1, 1+len(c.Cuts)).Draw(t, "in")
		if c.In > 1 && c.Cuts[c.In-2].Bad != "" {
			c.In = 1
		}
	}
	if len(c.Cuts) > 0 && rapid.IntRange(0, 9).Draw(t, "twice") == 0 {
		c.Again = rapid.SliceOfN(rapid.IntRange(0, len(c.Cuts)-1), 1, 3).Draw(t, "again")
	}
	c.Old = core.GenOld(t)
	if rapid.IntRange(0, 3).Draw(t, "split") == 0 {
		c.Split = rapid.SliceOfN(rapid.IntRange(1, 9), 1, 4).Draw(t, "splits")
	}
	return c
}

// runVoxcut stores the case's models and runs the cutting tool.
func runVoxcut(x *core.Ctx, c cutCase) core.ToolResult {
	base := c.Base.Grid()
	b := core.EncodeBinvox(base, c.Split)
	if c.BadBase {
		b = b[5:]
	}
	args := []string{}
	for i, n := range []string{"sx", "sy", "sz"} {
		if c.S[i] != 0 {
			args = append(args, "-"+n, fmt.Sprint(c.S[i]))
		}
	}
	for i, n := range []string{"cx", "cy", "cz"} {
		if c.C[i] != 0 {
			args = append(args, "-"+n, fmt.Sprint(c.C[i]))
		}
	}
	if !c.NoBinvox {
		args = append(args, "-obinvox", c.outName())
	}
	if c.STL {
		args = append(args, "-ostl", "out.stl")
	}
	if c.VOX {
		args = append(args, "-ovox", "out.vox")
	}
	if c.Manifold {
		args = append(args, "-manifold")
	}
	if c.Smooth {
		args = append(args, "-smooth", "30")
	}
	put(x, c.baseName(), b)
	for _, n := range []string{"out.binvox", "out.stl", "out.vox"} {
		core.WriteOld(filepath.Join(x.Dir(), n), c.Old)
	}
	args = append(args, c.baseName())
	for i, m := range c.Cuts {
		args = append(args, m.store(x, base, fmt.Sprintf("cut%d.binvox", i), c.Split))
	}
	for _, i := range c.Again {
		args = append(args, fmt.Sprintf("cut%d.binvox", i))
	}
	return x.Tool(core.ToolOpt{}, "voxcut", args...)
}

// outName is the name of the binvox file that the tool is to write.
func (c cutCase) outName() string {
	switch {
	case c.In == 1:
		return c.baseName()
	case c.In > 1:
		return fmt.Sprintf("cut%d.binvox", c.In-2)
	}
	return "out.binvox"
}

// written is an output, or nil if it is absent or as it was before.
func (c cutCase) written(x *core.Ctx, name string) []byte {
	b := get(x, name)
	if c.Old > 0 && bytes.Equal(b, core.OldBytes(c.Old)) {
		return nil
	}
	return b
}

// worldCells maps the cells of a stored model to the lattice of the base.
func worldCells(base, g *core.Grid) (map[core.P]bool, error) {
	mmpv := base.MMPV()
	if !core.Near(g.MMPV(), mmpv, 0) {
		return nil, fmt.Errorf("voxel size %v, want %v", g.MMPV(), mmpv)
	}
	var off [3]int
	for i := range off {
		f := (g.T[i] - base.T[i]) / mmpv
		r := math.Round(f)
		if math.Abs(f-r) > 1e-6*(1+math.Abs(base.T[i])/mmpv) {
			return nil, fmt.Errorf("origin %v is not on the base's lattice (axis %d: %v voxels off)", g.T, i, f-r)
		}
		off[i] = int(r)
	}
	out := map[core.P]bool{}
	for p := range g.Cells {
		out[core.P{p[0] + off[0], p[1] + off[1], p[2] + off[2]}] = true
	}
	return out, nil
}

// checkBinvox compares a stored model with cells of the base's lattice.
func checkBinvox(what string, base *core.Grid, b []byte, want map[core.P]bool) error {
	g, short, err := core.DecodeBinvox(b)
	if err != nil || short {
		return core.Failf("%s is malformed: %v short=%v", what, err, short)
	}
	got, err := worldCells(base, g)
	if err != nil {
		return core.Failf("%s: %v", what, err)
	}
	if d := core.DiffCells(want, got); d != "" {
		return core.Failf("%s: %s", what, d)
	}
	return nil
}

// windings checks that a mesh in voxel units surrounds the centres of exactly
// the wanted cells (once), looking at all cells of a box around both.
func windings(vox []core.Tri, want map[core.P]bool) error {
	lo, hi := core.P{0, 0, 0}, core.P{0, 0, 0}
	for p := range want {
		for i := range p {
			lo[i], hi[i] = min(lo[i], p[i]), max(hi[i], p[i])
		}
	}
	for _, t := range vox {
		for _, v := range t {
			for i := range v {
				if math.Abs(v[i]) > 1e5 || math.IsNaN(v[i]) {
					return fmt.Errorf("vertex far away: %v voxels", v)
				}
				lo[i], hi[i] = min(lo[i], int(math.Floor(v[i]))), max(hi[i], int(math.Ceil(v[i])))
			}
		}
	}
	if float64(hi[0]-lo[0])*float64(hi[1]-lo[1])*float64(hi[2]-lo[2]) > 5e7 {
		return fmt.Errorf("the mesh spans %v to %v voxels", lo, hi)
	}
	r := core.NewRays(vox)
	var zs []float64
	for z := lo[2]; z <= hi[2]; z++ {
		zs = append(zs, float64(z)+0.5)
	}
	for px := lo[0]; px <= hi[0]; px++ {
		for py := lo[1]; py <= hi[1]; py++ {
			for i, w := range r.Winding(float64(px)+0.4871, float64(py)+0.5217, zs...) {
				p := core.P{px, py, lo[2] + i}
				v := 0
				if want[p] {
					v = 1
				}
				if w != v {
					return fmt.Errorf("the mesh winds %d times around the centre of cell %v, want %d", w, p, v)
				}
			}
		}
	}
	return nil
}

func c15() *core.Prop {
	run := func(x *core.Ctx, c cutCase) error {
		base, left := difference(c)
		r := runVoxcut(x, c)
		what := fmt.Sprintf("voxcut of %v cells by %d cuts, window %v+%v", len(base.Cells), len(c.Cuts), c.S, c.C)
		if r.Crashed {
			return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
		}
		bv, st, vx := c.written(x, c.outName()), c.written(x, "out.stl"), c.written(x, "out.vox")
		if c.BadBase {
			if r.Code == 0 {
				return core.Failf("%s reports success although the base is unreadable", what)
			}
			left = nil
		}
		if c.In > 0 {
			x.Label("in place")
			if len(left) == 0 {
				g := base
				if c.In > 1 {
					g = c.Cuts[c.In-2].grid(base)
				}
				b := core.EncodeBinvox(g, c.Split)
				if c.In == 1 && c.BadBase {
					b = b[5:]
				}
				if !bytes.Equal(b, bv) {
					return core.Failf("%s replaces %s although nothing is left", what, c.outName())
				}
				bv = nil
			}
		}
		if len(left) == 0 {
			if bv != nil || st != nil || vx != nil {
				return core.Failf("%s writes a file although nothing is left", what)
			}
			x.Label("nothing left")
			return nil
		}
		good, moved := 0, 0
		for _, m := range c.Cuts {
			if m.Bad != "" {
				x.Label("unreadable cut: %s", m.Bad)
				continue
			}
			good++
			if m.Off != [3]int{} {
				moved++
			}
		}
		if n := len(core.Windowed(base, c.S, c.C).Cells); n > len(left) {
			x.NonTrivial()
			if moved > 0 {
				x.Label("cut by a moved model")
			}
			if c.S != [3]int{} {
				x.Label("cut in a window")
			}
			if good > 1 {
				x.Label("several cuts")
			}
		}
		if r.Code != 0 {
			return core.Failf("%s fails with status %d although %d cells are left: %s", what, r.Code, len(left), core.Tail(r.Stderr))
		}
		if !c.NoBinvox {
			if bv == nil {
				return core.Failf("%s writes no binvox file although %d cells are left", what, len(left))
			}
			if err := checkBinvox(what+": out.binvox", base, bv, left); err != nil {
				return err
			}
		}
		if c.STL {
			x.Label("stl")
			tris, err := core.DecodeSTL(st)
			if err != nil {
				return core.Failf("%s writes a malformed STL file: %v", what, err)
			}
			vox := core.ToVoxels(tris, base.T, base.MMPV())
			tol := 4e-7 * (maxAbs(base.T)/base.MMPV() + 100)
			if tol > 0.1 {
				return nil // float32 cannot hold the positions
			}
			if c.Manifold {
				err = windings(vox, left)
			} else {
				err = core.Blocky(vox, left, tol)
			}
			if err != nil {
				return core.Failf("%s: out.stl: %v", what, err)
			}
		}
		if c.VOX {
			x.Label("vox")
			if err := checkVOX(vx, c, left); err != nil {
				return core.Failf("%s: out.vox: %v", what, err)
			}
		}
		return nil
	}
	crowd := func(t *rapid.T) cutCase {
		c := genCutCase(t)
		c.BadBase = false
		n := &c.Base.N
		mmpv := c.Base.Scale / float64(max(n[0], n[1], n[2]))
		for i := range n {
			n[i] = rapid.IntRange(4, 10).Draw(t, "n")
		}
		c.Base.Scale = mmpv * float64(max(n[0], n[1], n[2]))
		c.Base.Runs = []int{0, n[0] * n[1] * n[2]}
		c.S, c.C = [3]int{}, [3]int{}
		if rapid.IntRange(0, 3).Draw(t, "window") == 0 {
			c.S, c.C = core.GenWindow(t, c.Base.N, false)
		}
		c.Cuts = genCutCrowd(t, c.Base)
		c.In, c.Again = 0, nil
		return c
	}
	// More than 65536 voxels in the base, the cuts and what is left.
	large := func(bool) []cutCase {
		base := core.Model{N: [3]int{62, 60, 55}, T: [3]float64{1, -2, 3}, Scale: 31, Runs: []int{0, 150000, 7, 50000, 300, 1000000}}
		cuts := []cutModel{{Off: [3]int{20, -3, 4}, N: [3]int{40, 50, 48}, Runs: []int{0, 70000, 3, 20000, 3, 1000000}}, {Off: [3]int{0, 1, 0}, N: [3]int{3, 70000, 1}, Runs: []int{70000, 1, 0, 70000}}}
		return []cutCase{{Base: base, Cuts: cuts, STL: true}, {Base: base, Cuts: cuts[:1], S: [3]int{1, 2, 0}, C: [3]int{60, 50, 0}, VOX: true},
			{Base: core.Crowded()[3], Cuts: []cutModel{{Off: [3]int{1, 2, 3}, N: [3]int{2, 2, 2}, Runs: []int{0, 8}}}, STL: true}}
	}
	return &core.Prop{
		ID:          "C15",
		Rule:        "bases up to 24 per axis, 0 to 4 (`crowd`: 5 to 300) cuts with their own origin (any lattice offset up to touching) and size, any window, some unreadable cuts or bases, some cuts named twice, the result in a new file or in place of the base or a cut, binvox with or without STL and VOX output, cut by the tool; non-trivial: the cuts remove something from the window and something is left",
		Assumptions: []string{"all models have one voxel size and lie on one lattice to float64 rounding, as the tool documents", "either exit status is accepted when nothing is left"},
		Tools:       []string{"./cmd/voxcut"},
		Arms:        []*core.Arm{core.NewArm("tool", 8000, 60000, genCutCase, run), core.NewArm("crowd", 96, 1000, crowd, run), core.Fixed(core.NewArm("large", 0, 0, nil, run), large)},
	}
}

func maxAbs(t [3]float64) float64 {
	return max(math.Abs(t[0]), math.Abs(t[1]), math.Abs(t[2]))
}

// ---------------------------------------------------------------- C16

// decodeVOX reads a MagicaVoxel file with one model strictly.
func decodeVOX(b []byte) (size [3]int, cells map[core.P]int, err error) {
	fail := func(f string, a ...any) ([3]int, map[core.P]int, error) { return size, nil, fmt.Errorf(f, a...) }
	if len(b) < 20 || string(b[:4]) != "VOX " {
		return fail("bad magic in %d bytes", len(b))
	}
	u := func(b []byte) int { return int(int32(binary.LittleEndian.Uint32(b))) }
	if v := u(b[4:]); v != 150 {
		return fail("version %d", v)
	}
	type chunk struct {
		id                string
		content, children []byte
	}
	next := func(b []byte) (c chunk, rest []byte, err error) {
		if len(b) < 12 {
			return c, nil, fmt.Errorf("truncated chunk header")
		}
		n, m := u(b[4:]), u(b[8:])
		if n < 0 || m < 0 || n+m > len(b)-12 {
			return c, nil, fmt.Errorf("chunk %q declares %d+%d bytes, %d are present", b[:4], n, m, len(b)-12)
		}
		return chunk{string(b[:4]), b[12 : 12+n], b[12+n : 12+n+m]}, b[12+n+m:], nil
	}
	root, rest, err := next(b[8:])
	if err != nil {
		return fail("%v", err)
	}
	if root.id != "MAIN" || len(root.content) != 0 || len(rest) != 0 {
		return fail("chunk %q with %d content bytes and %d bytes after it, want MAIN covering the file", root.id, len(root.content), len(rest))
	}
	sizes, lists := 0, 0
	for b := root.children; len(b) > 0; {
		var c chunk
		if c, b, err = next(b); err != nil {
			return fail("%v", err)
		}
		switch c.id {
		case "SIZE":
			if len(c.content) != 12 || lists > 0 {
				return fail("SIZE chunk of %d bytes (after %d XYZI)", len(c.content), lists)
			}
			sizes++
			for i := range size {
				size[i] = u(c.content[4*i:])
			}
		case "XYZI":
			if sizes != 1 {
				return fail("XYZI after %d SIZE chunks", sizes)
			}
			lists++
			if len(c.content) < 4 {
				return fail("XYZI chunk of %d bytes", len(c.content))
			}
			n := u(c.content)
			if n < 0 || len(c.content) != 4+4*n {
				return fail("XYZI chunk of %d bytes for %d voxels", len(c.content), n)
			}
			cells = map[core.P]int{}
			for i := 0; i < n; i++ {
				v := c.content[4+4*i:]
				if v[3] == 0 {
					return fail("voxel with colour 0")
				}
				p := core.P{int(v[0]), int(v[1]), int(v[2])}
				cells[p]++
				for k := range p {
					if p[k] >= size[k] {
						return fail("voxel %v outside the size %v", p, size)
					}
				}
			}
		}
	}
	if sizes != 1 || lists != 1 {
		return fail("%d SIZE and %d XYZI chunks", sizes, lists)
	}
	for k := range size {
		if size[k] < 1 || size[k] > 256 {
			return fail("size %v", size)
		}
	}
	return size, cells, nil
}

func checkVOX(b []byte, c cutCase, left map[core.P]bool) error {
	if b == nil {
		return fmt.Errorf("no file")
	}
	_, got, err := decodeVOX(b)
	if err != nil {
		return err
	}
	set := map[core.P]bool{}
	for p, n := range got {
		if n != 1 {
			return fmt.Errorf("voxel %v is listed %d times", p, n)
		}
		set[core.P{p[0] + c.S[0], p[1] + c.S[1], p[2] + c.S[2]}] = true
	}
	if d := core.DiffCells(left, set); d != "" {
		return fmt.Errorf("voxels (in base indices): %s", d)
	}
	return nil
}

func c16() *core.Prop {
	run := func(x *core.Ctx, c cutCase) error {
		base, left := difference(c)
		r := runVoxcut(x, c)
		what := fmt.Sprintf("voxcut -ovox of a %v model, window %v+%v, %d cells left", base.N, c.S, c.C, len(left))
		if r.Crashed {
			return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
		}
		b := c.written(x, "out.vox")
		if len(left) == 0 {
			if b != nil {
				return core.Failf("%s writes a VOX file although nothing is left", what)
			}
			return nil
		}
		fits := true
		for p := range left {
			for i := range p {
				fits = fits && p[i]-c.S[i] <= 255
			}
		}
		x.NonTrivial()
		if !fits {
			x.Label("beyond the format")
			if r.Code == 0 {
				return core.Failf("%s reports success although VOX cannot hold the indices", what)
			}
			return nil
		}
		if r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		if max(base.N[0], base.N[1], base.N[2]) > 256 {
			x.Label("window of a long model")
		}
		if err := checkVOX(b, c, left); err != nil {
			return core.Failf("%s: %v", what, err)
		}
		return nil
	}
	gen := func(t *rapid.T) cutCase {
		c := genCutCase(t)
		c.VOX, c.STL, c.Manifold, c.Smooth, c.BadBase = true, false, false, false, false
		return c
	}
	genLong := func(t *rapid.T) cutCase {
		c := cutCase{VOX: true, NoBinvox: true}
		long := rapid.IntRange(0, 2).Draw(t, "axis")
		for i := range c.Base.N {
			c.Base.N[i] = rapid.IntRange(1, 3).Draw(t, "n")
		}
		if rapid.IntRange(0, 12).Draw(t, "broad") == 0 {
			c.Base.N[(long+1)%3] = rapid.IntRange(250, 256).Draw(t, "n")
		}
		c.Base.N[long] = rapid.SampledFrom([]int{255, 256, 257, 258, 300, 511, 512, 513, 600, 66000}).Draw(t, "long")
		if c.Base.N[(long+1)%3] > 3 && c.Base.N[long] > 600 {
			c.Base.N[long] = 256
		}
		total := c.Base.N[0] * c.Base.N[1] * c.Base.N[2]
		c.Base.Scale = float64(max(c.Base.N[0], c.Base.N[1], c.Base.N[2]))
		switch rapid.IntRange(0, 2).Draw(t, "fill") {
		case 0:
			c.Base.Runs = []int{0, total}
		case 1:
			c.Base.Runs = []int{total - 1, 1}
		default:
			p := rapid.IntRange(0, total-1).Draw(t, "p")
			c.Base.Runs = []int{p, 1, 0, min(3, total-1-p)}
		}
		if rapid.Bool().Draw(t, "window") {
			n := c.Base.N[long]
			c.S[long] = rapid.SampledFrom([]int{0, 1, 100, 255, 256, n - 257, n - 256, n - 255, n - 1}).Draw(t, "s")
			c.S[long] = max(0, min(n-1, c.S[long]))
			c.C[long] = rapid.SampledFrom([]int{0, 1, 255, 256, 257}).Draw(t, "c")
		}
		return c
	}
	return &core.Prop{
		ID:          "C16",
		Rule:        "results of generated cuts and windows, and thin models of 255 to 66000 cells along one axis with windows around the 256 limit, written by the tool and read by a strict decoder; non-trivial: something is left to write",
		Assumptions: []string{"the chunk layout is that of MagicaVoxel files of version 150 with one model"},
		Tools:       []string{"./cmd/voxcut"},
		Arms: []*core.Arm{
			core.NewArm("cuts", 2400, 30000, gen, run),
			core.NewArm("long", 800, 10000, genLong, run),
		},
	}
}
