// hvshell holds the checks of shells: extraction, merging and files.
package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/gmlewis/stldice/v4/binvox"
	"github.com/gmlewis/stldice/v4/vshell"
	"pgregory.net/rapid"
	"verif/harness/core"
)

func main() {
	core.Main(c11(), c12(), c13(), c14())
}

func writeFile(x *core.Ctx, name string, b []byte) string {
	p := filepath.Join(x.Dir(), name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		core.Infra("write: %v", err)
	}
	return p
}

func readFile(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		core.Infra("read: %v", err)
	}
	return b
}

// shellCells indexes the voxels of a shell and rejects duplicates.
func shellCells(what string, vs *vshell.VShell) (map[core.P]uint32, error) {
	out := map[core.P]uint32{}
	for _, v := range vs.Voxels {
		p := core.P{v.X, v.Y, v.Z}
		if _, dup := out[p]; dup {
			return nil, core.Failf("%s: voxel %v is listed twice", what, p)
		}
		out[p] = uint32(v.N)
	}
	return out, nil
}

// diffShell describes the difference between two shells, "" if equal.
func diffShell(want, got map[core.P]uint32) string {
	a, b := map[core.P]bool{}, map[core.P]bool{}
	for p := range want {
		a[p] = true
	}
	for p := range got {
		b[p] = true
	}
	if d := core.DiffCells(a, b); d != "" {
		return d
	}
	bad, first := 0, core.P{}
	for p, n := range want {
		if got[p] != n {
			if bad == 0 || less(p, first) {
				first = p
			}
			bad++
		}
	}
	if bad > 0 {
		return fmt.Sprintf("%d neighbour maps differ, first at %v: %#x, want %#x", bad, first, got[first], want[first])
	}
	return ""
}

func less(a, b core.P) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// genSolidModel draws occupancies in which enclosed cells are common.
func genSolidModel(t *rapid.T, maxDim, maxCells int) core.Model {
	m := core.Model{N: core.GenDims(t, maxDim, maxCells)}
	for i := range m.T {
		m.T[i] = core.GenModerate(t, "t")
	}
	m.Scale = core.GenScale(t, "scale")
	total := m.N[0] * m.N[1] * m.N[2]
	switch rapid.IntRange(0, 3).Draw(t, "fill") {
	case 0:
		m.Runs = core.GenRuns(t, total)
	case 1:
		if total <= 200 {
			m.Runs = core.GenBits(t, total)
			break
		}
		fallthrough
	default: // full with a few holes
		m.Runs = []int{0}
		left := total
		for i := rapid.IntRange(0, 6).Draw(t, "holes"); i > 0 && left > 1; i-- {
			r := rapid.IntRange(0, left-1).Draw(t, "r")
			h := 1
			if rapid.IntRange(0, 4).Draw(t, "big") == 0 {
				h = rapid.IntRange(1, left-r).Draw(t, "h")
			}
			m.Runs = append(m.Runs, r, h)
			left -= r + h
		}
		if left > 0 {
			m.Runs = append(m.Runs, left)
		}
	}
	return m
}

// ---------------------------------------------------------------- C11

type extract struct {
	Model core.Model `json:"model"`
	Color int        `json:"color"` // 0 white, 1 coloured
}

// farShell is a model of a few blocks in a grid that may be huge.
type farShell struct {
	N        [3]int         `json:"n"`
	Clusters []core.Cluster `json:"clusters"`
	Color    bool           `json:"color,omitempty"`
}

func c11() *core.Prop {
	run := func(x *core.Ctx, c extract) error {
		g := c.Model.Grid()
		bv := binvox.New(g.N[0], g.N[1], g.N[2], g.T[0], g.T[1], g.T[2], g.Scale, c.Color > 0)
		for p := range g.Cells {
			if c.Color == 0 {
				bv.Add(p[0], p[1], p[2])
			} else {
				q := core.Paint(p)
				bv.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
			}
		}
		vs, err := vshell.New(bv)
		if err != nil {
			return core.Failf("no shell of a valid model: %v", err)
		}
		if n := [3]int{vs.NX, vs.NY, vs.NZ}; n != g.N {
			return core.Failf("shell dimensions %v, want %v", n, g.N)
		}
		for i, v := range []float64{vs.TX, vs.TY, vs.TZ} {
			if !core.SameFloat(v, g.T[i]) {
				return core.Failf("shell translation[%d] %v, want %v", i, v, g.T[i])
			}
		}
		if got, want := vs.VoxelsPerMM(), float64(g.Dim())/g.Scale; math.Abs(got-want) > 1e-12*want {
			return core.Failf("shell has %v voxels per mm, want %v", got, want)
		}
		got, err := shellCells("shell", vs)
		if err != nil {
			return err
		}
		want := core.ShellOf(g.Cells)
		if d := diffShell(want, got); d != "" {
			return core.Failf("shell of a %v model: %s", g.N, d)
		}
		x.Label("color=%d", c.Color)
		if len(want) < len(g.Cells) {
			x.Label("enclosed")
			x.NonTrivial()
		} else if len(want) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	gen := func(t *rapid.T) extract {
		return extract{genSolidModel(t, 12, 1200), rapid.IntRange(0, 1).Draw(t, "color")}
	}
	a := core.NewArm("extract", 5250, 60000, gen, run)
	core.Fixed(a, func(bool) []extract {
		var out []extract
		add := func(cells func(i int) bool) {
			m := core.Model{N: [3]int{3, 3, 3}, T: [3]float64{1, 2, 3}, Scale: 1.5}
			cur, n := false, 0
			for i := 0; i < 27; i++ {
				if v := cells(i); v != cur {
					m.Runs, cur, n = append(m.Runs, n), v, 0
				}
				n++
			}
			m.Runs = append(m.Runs, n)
			for color := 0; color < 2; color++ {
				out = append(out, extract{m, color})
			}
		}
		for k := 0; k < 27; k++ { // the centre with one neighbour, and with all but one
			add(func(i int) bool { return i == 13 || i == k })
			add(func(i int) bool { return i != k || i == 13 })
		}
		for i, m := range core.Crowded() {
			out = append(out, extract{m, i & 1})
		}
		return out
	})
	shell := func(x *core.Ctx, n [3]int, tr [3]float64, mmpv float64, cells map[core.P]bool, color bool) error {
		bv := binvox.New(n[0], n[1], n[2], tr[0], tr[1], tr[2], mmpv*float64(max(n[0], n[1], n[2])), color)
		for p := range cells {
			if q := core.Paint(p); color {
				bv.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
			} else {
				bv.Add(p[0], p[1], p[2])
			}
		}
		vs, err := vshell.New(bv)
		if err != nil {
			return core.Failf("no shell of a valid model: %v", err)
		}
		if got := [3]int{vs.NX, vs.NY, vs.NZ}; got != n {
			return core.Failf("shell dimensions %v, want %v", got, n)
		}
		got, err := shellCells("shell", vs)
		if err != nil {
			return err
		}
		if d := diffShell(core.ShellOf(cells), got); d != "" {
			return core.Failf("shell of a %v model: %s", n, d)
		}
		if len(got) > 1 {
			x.NonTrivial()
		}
		return nil
	}
	far := core.NewArm("far", 2250, 30000, func(t *rapid.T) farShell {
		var c farShell
		c.N, c.Clusters = core.GenClusters(t, false)
		c.Color = rapid.IntRange(0, 3).Draw(t, "colour") == 0
		return c
	}, func(x *core.Ctx, c farShell) error {
		cells := map[core.P]bool{}
		for _, cl := range c.Clusters {
			for p := range cl.Grid().Cells {
				cells[core.P{p[0] + cl.At[0], p[1] + cl.At[1], p[2] + cl.At[2]}] = true
			}
		}
		return shell(x, c.N, [3]float64{1, -2, 3}, 0.25, cells, c.Color)
	})
	large := core.NewArm("large", 100, 1500, func(t *rapid.T) core.Large {
		return core.GenLarge(t, 40)
	}, func(x *core.Ctx, c core.Large) error {
		x.Label("kind=%d", c.Kind)
		g := c.Grid()
		return shell(x, g.N, g.T, c.MMPV, g.Cells, c.Seed&1 == 1)
	})
	return &core.Prop{
		ID:   "C11",
		Rule: "blocks of cells far apart in grids of up to 2^21 cells per axis; solids, sheets and dense bits of up to 40x40x40 cells; random white and coloured models (full blocks with holes, dense random bits, runs); the centre of a 3x3x3 block with each single neighbour and with all but one is enumerated; non-trivial: the model has enclosed cells, or at least two exposed ones",
		Arms: []*core.Arm{a, far, large},
	}
}

// ---------------------------------------------------------------- C12

// part is a region of a common lattice.
type part struct {
	O    [3]int `json:"o"` // lattice position of its origin
	N    [3]int `json:"n"`
	Runs []int  `json:"runs"`
}

type mergeCase struct {
	Base  [3]float64 `json:"base"`
	MMPV  float64    `json:"mmpv"`
	Parts []part     `json:"parts"`
	Order int        `json:"order"` // how file names follow the order (tool)
	Bad   string     `json:"bad,omitempty"`
	BadAt int        `json:"badAt,omitempty"`
	Ratio float64    `json:"ratio,omitempty"`
	Color int        `json:"color,omitempty"` // bit i: part i%8 is coloured
	Six   bool       `json:"six,omitempty"`   // headers of six digits, as binvox writes
}

// six rounds to six significant digits.
func six(v float64) float64 {
	r, _ := strconv.ParseFloat(strconv.FormatFloat(v, 'g', 6, 64), 64)
	return r
}

// grids expands the parts; a cell claimed twice stays with the first part.
func (c mergeCase) grids() (parts []*core.Grid, union map[core.P]bool) {
	union = map[core.P]bool{}
	for _, p := range c.Parts {
		var tr [3]float64
		for i := range tr {
			tr[i] = c.Base[i] + float64(p.O[i])*c.MMPV
		}
		m := core.Model{N: p.N, T: tr, Scale: 1, Runs: p.Runs}
		g := m.Grid()
		g.Scale = float64(g.Dim()) * c.MMPV
		if c.Six {
			g.Scale = six(g.Scale)
			for i := range g.T {
				g.T[i] = six(g.T[i])
			}
		}
		for q := range g.Cells {
			w := core.P{q[0] + p.O[0], q[1] + p.O[1], q[2] + p.O[2]}
			if union[w] {
				delete(g.Cells, q)
			}
			union[w] = true
		}
		parts = append(parts, g)
	}
	return parts, union
}

func genMerge(t *rapid.T, far int) mergeCase {
	c := genParts(t, far)
	c.Six = rapid.IntRange(0, 4).Draw(t, "six") == 0
	for i := range c.Base { // six digits must tell which cell it is
		for _, p := range c.Parts {
			if math.Abs(c.Base[i]+float64(p.O[i])*c.MMPV) > 4000*c.MMPV {
				c.Six = false
			}
		}
	}
	return c
}

func genParts(t *rapid.T, far int) mergeCase {
	c := mergeCase{}
	for i := range c.Base {
		c.Base[i] = core.GenModerate(t, "base")
	}
	switch rapid.IntRange(0, 3).Draw(t, "mmpvk") {
	case 0:
		c.MMPV = 1 / float64(rapid.IntRange(1, 30).Draw(t, "vpmm"))
	case 1:
		c.MMPV = rapid.Float64Range(0.02, 3).Draw(t, "mmpv")
	case 2:
		c.MMPV = math.Pow(10, rapid.Float64Range(-6, 6).Draw(t, "power"))
		for i := range c.Base {
			c.Base[i] *= c.MMPV
		}
	default:
		c.MMPV = float64(rapid.IntRange(1, 200).Draw(t, "mmpv")) / 64
	}
	kind := rapid.IntRange(0, 4).Draw(t, "kind")
	if kind == 4 { // parts that fill each other's gaps in one block
		o := [3]int{rapid.IntRange(-3, 3).Draw(t, "o"), rapid.IntRange(-3, 3).Draw(t, "o"), rapid.IntRange(-3, 3).Draw(t, "o")}
		n := [3]int{rapid.IntRange(2, 7).Draw(t, "n"), rapid.IntRange(2, 7).Draw(t, "n"), rapid.IntRange(2, 7).Draw(t, "n")}
		total := n[0] * n[1] * n[2]
		for k := rapid.IntRange(1, 3).Draw(t, "parts"); k > 0; k-- {
			q := part{O: o, N: n}
			if rapid.Bool().Draw(t, "bits") {
				q.Runs = core.GenBits(t, total)
			} else {
				q.Runs = core.GenRuns(t, total)
			}
			c.Parts = append(c.Parts, q)
		}
		c.Parts = append(c.Parts, part{O: o, N: n, Runs: []int{0, total}}) // the rest
		return c
	}
	if kind < 2 { // regions of one diced model
		n := [3]int{rapid.IntRange(2, 12).Draw(t, "n"), rapid.IntRange(2, 12).Draw(t, "n"), rapid.IntRange(1, 12).Draw(t, "n")}
		size := [3]int{}
		for i := range size {
			size[i] = rapid.IntRange((n[i]+1)/2, n[i]).Draw(t, "size")
		}
		for a := 0; a < n[0]; a += size[0] {
			for b := 0; b < n[1]; b += size[1] {
				for d := 0; d < n[2]; d += size[2] {
					q := part{O: [3]int{a, b, d}, N: size}
					total := size[0] * size[1] * size[2]
					switch rapid.IntRange(0, 3).Draw(t, "fill") {
					case 0:
						q.Runs = core.GenRuns(t, total)
					case 1: // empty
					default:
						q.Runs = []int{0, total}
						if h := rapid.IntRange(0, total).Draw(t, "hole"); h > 0 {
							q.Runs = []int{0, h - 1, 1, total}
						}
					}
					c.Parts = append(c.Parts, q)
				}
			}
		}
		c.Parts = rapid.Permutation(c.Parts).Draw(t, "perm")
	} else { // boxes anywhere, of any relative position
		for i := rapid.IntRange(1, 5).Draw(t, "parts"); i > 0; i-- {
			q := part{}
			for k := range q.O {
				q.O[k] = rapid.IntRange(-12, 12).Draw(t, "o")
				q.N[k] = rapid.IntRange(1, 6).Draw(t, "n")
				if rapid.IntRange(0, 12).Draw(t, "far") == 0 {
					q.O[k] = rapid.IntRange(-far, far).Draw(t, "far")
				}
			}
			total := q.N[0] * q.N[1] * q.N[2]
			switch rapid.IntRange(0, 4).Draw(t, "fill") {
			case 0:
				if rapid.Bool().Draw(t, "empty") {
					break
				}
				fallthrough
			case 1:
				q.Runs = []int{0, total}
			default:
				q.Runs = core.GenBits(t, total)
			}
			c.Parts = append(c.Parts, q)
		}
	}
	return c
}

// checkMerged compares a merged shell to the shell of the union, in world space.
func checkMerged(what string, c mergeCase, union map[core.P]bool, n [3]int, tr [3]float64, scale float64, got map[core.P]uint32) error {
	dim := max(n[0], n[1], n[2])
	if len(union) > 0 {
		if mmpv := scale / float64(dim); !core.Near(mmpv, c.MMPV, 0) && !(c.Six && math.Abs(mmpv/c.MMPV-1) < 1e-4) {
			return core.Failf("%s: voxel size %v, want %v", what, mmpv, c.MMPV)
		}
	}
	world := map[core.P]uint32{}
	for p, v := range got {
		var w core.P
		for i := range p {
			if p[i] < 0 || p[i] >= n[i] {
				return core.Failf("%s: voxel %v outside the dimensions %v", what, p, n)
			}
			f := (tr[i]-c.Base[i])/c.MMPV + float64(p[i])
			w[i] = int(math.Round(f))
			if d := math.Abs(f - float64(w[i])); d > 1e-5 && !(c.Six && d < 0.2) {
				return core.Failf("%s: voxel %v lies at %v voxels from the lattice origin on axis %d, off the lattice", what, p, f, i)
			}
		}
		world[w] = v
	}
	if d := diffShell(core.ShellOf(union), world); d != "" {
		return core.Failf("%s (voxel positions on the common lattice): %s", what, d)
	}
	return nil
}

func describe(c mergeCase) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "merge of %d parts, voxel %v", len(c.Parts), c.MMPV)
	for i, p := range c.Parts {
		if i < 6 {
			fmt.Fprintf(&sb, "; %v+%v", p.O, p.N)
		}
	}
	return sb.String()
}

func mergeLabels(x *core.Ctx, c mergeCase, parts []*core.Grid, union map[core.P]bool) {
	nonEmpty := 0
	neg, pos := [3]bool{}, [3]bool{}
	var first *part
	for i, g := range parts {
		if len(g.Cells) == 0 {
			x.Label("empty part")
			continue
		}
		nonEmpty++
		if first == nil {
			first = &c.Parts[i]
		}
		for k := range neg {
			neg[k] = neg[k] || c.Parts[i].O[k] < first.O[k]
			pos[k] = pos[k] || c.Parts[i].O[k] > first.O[k]
		}
	}
	if nonEmpty > 1 {
		x.NonTrivial()
	}
	if (neg[0] || neg[1] || neg[2]) && (pos[0] || pos[1] || pos[2]) {
		x.Label("mixed signs")
	}
	if len(core.ShellOf(union)) < len(union) {
		x.Label("enclosed")
	}
}

// genLargeMerge dices a model of up to 30x30x30 cells.
func genLargeMerge(t *rapid.T) mergeCase {
	l := core.GenLarge(t, 30)
	c := mergeCase{Base: l.T, MMPV: l.MMPV, Color: rapid.SampledFrom([]int{0, 0, 0, 255, 85}).Draw(t, "color")}
	g := l.Grid()
	var size [3]int
	for i := range size {
		size[i] = (l.N[i] + rapid.IntRange(0, 2).Draw(t, "dice")) / rapid.IntRange(1, 3).Draw(t, "parts")
		size[i] = max(size[i], (l.N[i]+2)/3)
	}
	for i := 0; i < l.N[0]; i += size[0] {
		for j := 0; j < l.N[1]; j += size[1] {
			for k := 0; k < l.N[2]; k += size[2] {
				q := part{O: [3]int{i, j, k}, N: size}
				r := core.NewGrid(size, [3]float64{}, 1)
				cur, n := false, 0
				for at := 0; at < r.Total(); at++ {
					p := r.At(at)
					if v := g.Cells[core.P{p[0] + i, p[1] + j, p[2] + k}]; v != cur {
						q.Runs, cur, n = append(q.Runs, n), v, 0
					}
					n++
				}
				q.Runs = append(q.Runs, n)
				c.Parts = append(c.Parts, q)
			}
		}
	}
	c.Parts = rapid.Permutation(c.Parts).Draw(t, "perm")
	return c
}

// largeFaces joins slabs whose many touching voxels are not on the shell of the whole.
func largeFaces(thorough bool) (out []mergeCase) {
	sizes := []int{75, 190}
	if thorough {
		sizes = append(sizes, 110, 270)
	}
	for k, n := range sizes {
		for axis := 0; axis < 3; axis++ {
			size := [3]int{n, n, n}
			size[axis] = 2
			c := mergeCase{MMPV: 1, Color: []int{0, 2, 3}[(axis+k)%3]}
			for i := 0; i < 3; i++ {
				p := part{N: size, Runs: []int{0, 2 * n * n}}
				p.O[axis] = 2 * i
				c.Parts = append(c.Parts, p)
			}
			if axis == 1 { // the middle one last
				c.Parts[1], c.Parts[2] = c.Parts[2], c.Parts[1]
			}
			out = append(out, c)
		}
	}
	return out
}

func c12() *core.Prop {
	genAdd := func(t *rapid.T) mergeCase {
		c := genMerge(t, rapid.SampledFrom([]int{900, 900, 70000, 1 << 20}).Draw(t, "reach"))
		if rapid.IntRange(0, 2).Draw(t, "coloured") == 0 {
			c.Color = rapid.IntRange(1, 255).Draw(t, "color")
		}
		if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			c.Bad = "size"
			c.BadAt = rapid.IntRange(0, len(c.Parts)).Draw(t, "at")
			c.Ratio = rapid.SampledFrom([]float64{0.5, 0.9, 0.99, 1.01, 1.1, 1.5, 2, 3}).Draw(t, "ratio")
		}
		return c
	}
	bin := func(c mergeCase, i int, g *core.Grid) *binvox.BinVOX {
		color := c.Color>>(i%8)&1 == 1
		b := binvox.New(g.N[0], g.N[1], g.N[2], g.T[0], g.T[1], g.T[2], g.Scale, color)
		for p := range g.Cells {
			if q := core.Paint(p); color {
				b.AddColor(p[0], p[1], p[2], binvox.Color{R: q[0], G: q[1], B: q[2], A: q[3]})
			} else {
				b.Add(p[0], p[1], p[2])
			}
		}
		return b
	}
	runAdd := func(x *core.Ctx, c mergeCase) error {
		parts, union := c.grids()
		mergeLabels(x, c, parts, union)
		var vs *vshell.VShell
		placed := map[core.P]bool{}
		for i, g := range parts {
			if c.Bad == "size" && i == c.BadAt && i > 0 && len(placed) > 0 && len(g.Cells) > 0 {
				g.Scale *= c.Ratio
				if err := vs.Add(bin(c, i, g)); err == nil {
					return core.Failf("%s: a part whose voxels are %v times as large is accepted", describe(c), c.Ratio)
				}
				x.Label("refused size")
				return nil
			}
			var err error
			if vs == nil {
				vs, err = vshell.New(bin(c, i, g))
			} else {
				err = vs.Add(bin(c, i, g))
			}
			if err != nil {
				return core.Failf("%s: part %d is refused: %v", describe(c), i, err)
			}
			for q := range g.Cells {
				placed[core.P{q[0] + c.Parts[i].O[0], q[1] + c.Parts[i].O[1], q[2] + c.Parts[i].O[2]}] = true
			}
			what := fmt.Sprintf("%s, after %d parts", describe(c), i+1)
			got, err := shellCells(what, vs)
			if err != nil {
				return err
			}
			if err := checkMerged(what, c, placed, [3]int{vs.NX, vs.NY, vs.NZ}, [3]float64{vs.TX, vs.TY, vs.TZ}, vs.Scale, got); err != nil {
				return err
			}
		}
		return nil
	}
	genTool := func(t *rapid.T) mergeCase {
		c := genMerge(t, 900)
		c.Order = rapid.IntRange(0, 1).Draw(t, "order")
		switch rapid.IntRange(0, 9).Draw(t, "bad") {
		case 0:
			c.Bad = rapid.SampledFrom([]string{"size", "corrupt", "none", "missing"}).Draw(t, "kind")
			c.BadAt = rapid.IntRange(0, len(c.Parts)-1).Draw(t, "at")
			c.Ratio = rapid.SampledFrom([]float64{0.5, 0.9, 1.1, 2}).Draw(t, "ratio")
		}
		return c
	}
	// Hundreds of small files.
	genManyFiles := func(t *rapid.T) mergeCase {
		c := mergeCase{MMPV: 1, Order: rapid.IntRange(0, 1).Draw(t, "order")}
		want := rapid.SampledFrom([]int{100, 128, 256, 257, 300, 513, 700, 1025}).Draw(t, "parts")
		var n [3]int
		for i := range n {
			n[i] = rapid.IntRange(4, 11).Draw(t, "n")
		}
		for long := rapid.IntRange(0, 2).Draw(t, "long"); n[0]*n[1]*n[2] < want; {
			n[long]++
		}
		size := [3]int{1, 1, 1}
		size[rapid.IntRange(0, 2).Draw(t, "axis")] = rapid.IntRange(1, 2).Draw(t, "size")
		holes := rapid.IntRange(2, 9).Draw(t, "holes")
		for i := 0; i < n[0]; i++ {
			for j := 0; j < n[1]; j++ {
				for k := 0; k < n[2] && len(c.Parts) < want; k++ {
					q := part{O: [3]int{i * size[0], j * size[1], k * size[2]}, N: size, Runs: []int{0, 2}}
					if (i*i+3*j+k)%holes == 0 {
						q.Runs = []int{2}
					}
					c.Parts = append(c.Parts, q)
				}
			}
		}
		if rapid.Bool().Draw(t, "back") {
			slices.Reverse(c.Parts)
		}
		return c
	}
	runTool := func(x *core.Ctx, c mergeCase) error {
		parts, union := c.grids()
		mergeLabels(x, c, parts, union)
		var files []string
		filled := 0
		for i, g := range parts {
			if i == c.BadAt && c.Bad == "size" {
				if len(g.Cells) == 0 {
					return nil
				}
				g.Scale *= c.Ratio
			}
			if len(g.Cells) > 0 {
				filled++
			}
			b := core.EncodeBinvox(g, nil)
			if len(g.Cells) == 0 && c.Order == 1 { // as the writer stores an empty model
				e := core.NewGrid([3]int{}, g.T, g.Scale)
				b = core.EncodeBinvox(e, nil)
			}
			if i == c.BadAt && c.Bad == "corrupt" {
				b = b[:len(b)-1]
			}
			files = append(files, writeFile(x, fmt.Sprintf("out-%04d.binvox", (i+c.Order*7)%10000), b))
		}
		if c.Bad == "none" {
			for _, f := range files {
				os.Remove(f)
			}
			files = nil
		}
		if c.Bad == "size" && filled < 2 {
			return nil
		}
		out := filepath.Join(x.Dir(), "out.vsh")
		if c.Bad != "" {
			x.Label("bad=%s", c.Bad)
			x.NonTrivial()
			if c.Bad == "missing" { // the library, as the tool only sees existing files
				if vs, err := vshell.Merge(append(files, filepath.Join(x.Dir(), "gone.binvox"))); err == nil {
					return core.Failf("Merge accepts a missing file and returns %v", vs)
				}
				return nil
			}
			if vs, err := vshell.Merge(files); err == nil {
				return core.Failf("%s: Merge accepts unusable parts (%s) and returns %v", describe(c), c.Bad, vs)
			}
			r := x.Tool(core.ToolOpt{}, "merge-binvox", "-prefix", "out")
			if r.Code == 0 || r.Crashed {
				return core.Failf("%s: merge-binvox on unusable parts (%s): exit status %d crashed=%v: %s", describe(c), c.Bad, r.Code, r.Crashed, core.Tail(r.Stderr))
			}
			if _, err := os.Stat(out); err == nil {
				return core.Failf("%s: merge-binvox writes %s in spite of the error", describe(c), out)
			}
			return nil
		}
		r := x.Tool(core.ToolOpt{}, "merge-binvox", "-prefix", "out")
		if r.Code != 0 {
			return core.Failf("%s: merge-binvox fails with status %d: %s", describe(c), r.Code, core.Tail(r.Stderr))
		}
		s, short, err := core.DecodeVShell(readFile(out))
		if err != nil || short {
			return core.Failf("%s: merge-binvox writes a malformed file: %v short=%v", describe(c), err, short)
		}
		return checkMerged("merge-binvox: "+describe(c), c, union, s.N, s.T, s.Scale, s.N26)
	}
	return &core.Prop{
		ID:          "C12",
		Rule:        "white or coloured regions of one lattice (dicings in any order of up to 30x30x30 cells, fixed slabs of up to 75x75 (thorough: 270x270) cells, or boxes at any relative offset, some up to 2^20 cells away, some empty; voxels of 1e-6 to 1e6 mm; origins and sizes of full precision or of six digits), added one by one with the shell checked after every step, or merged from files (in the arm 'many-files' up to 1025) by the merge tool; parts of another voxel size, corrupt, missing or no files; non-trivial: at least two non-empty parts, or unusable parts",
		Assumptions: []string{"parts share the lattice to float64 rounding; cells claimed by several parts are given to one of them", "refused voxel sizes differ by at least one percent", "a header has at least the six digits of the binvox program, and they tell the cells apart"},
		Tools:       []string{"./cmd/merge-binvox"},
		Arms: []*core.Arm{
			core.NewArm("add", 6000, 80000, genAdd, runAdd),
			core.NewArm("files", 350, 5000, genTool, runTool),
			core.NewArm("many-files", 24, 300, genManyFiles, runTool),
			core.Fixed(core.NewArm("large", 90, 1200, genLargeMerge, runAdd), largeFaces),
		},
	}
}

// ---------------------------------------------------------------- C13

type shellCase struct {
	N     [3]int     `json:"n"`
	T     [3]float64 `json:"t"`
	Scale float64    `json:"scale"`
	Cells []core.P   `json:"cells,omitempty"` // consistent shell of these cells and Runs ...
	Runs  []int      `json:"runs,omitempty"`
	Maps  []uint32   `json:"maps,omitempty"` // ... or with these neighbour maps (cycled)
	S     [3]int     `json:"s"`
	C     [3]int     `json:"c"`
	Split []int      `json:"split,omitempty"`
	Old   int        `json:"old,omitempty"`   // bytes in the target before it is written
	Fill  bool       `json:"fill,omitempty"`  // the runs are repeated to the end of the grid
	Alike int        `json:"alike,omitempty"` // this many cells in a row have the same map
}

func (c shellCase) shell() *core.Shell {
	g := core.Model{N: c.N, T: c.T, Scale: c.Scale, Runs: c.Runs, Fill: c.Fill}.Grid()
	for _, p := range c.Cells {
		g.Cells[p] = true
	}
	s := &core.Shell{Grid: *g, N26: map[core.P]uint32{}}
	if len(c.Maps) == 0 {
		s.N26 = core.ShellOf(g.Cells)
	} else {
		cells := g.Sorted()
		if c.Alike > 0 { // in the order of the file
			cells = nil
			for i := 0; i < c.N[0]*c.N[1]*c.N[2]; i++ {
				if p := g.At(i); g.Cells[p] {
					cells = append(cells, p)
				}
			}
		}
		for i, p := range cells {
			s.N26[p] = c.Maps[i/max(1, c.Alike)%len(c.Maps)]
		}
	}
	return s
}

func genShell(t *rapid.T, window, big bool) shellCase {
	c := shellCase{Old: core.GenOld(t)}
	for i := range c.T {
		c.T[i] = core.GenFloat(t, "t")
		if window {
			c.T[i] = core.GenModerate(t, "t")
		}
	}
	c.Scale = core.GenScale(t, "scale")
	if window {
		c.Scale = rapid.Float64Range(0.01, 500).Draw(t, "scale")
	}
	var alike bool
	switch k := rapid.IntRange(0, 6).Draw(t, "kind"); {
	case k == 6: // long stretches of the same map
		alike = true
		if big && rapid.IntRange(0, 7).Draw(t, "long") == 0 {
			c.N = core.GenDims(t, 300, 150000)
			total := c.N[0] * c.N[1] * c.N[2]
			c.Runs = []int{rapid.IntRange(0, 3).Draw(t, "start")}
			if total > 10 {
				c.Runs = append(c.Runs, rapid.IntRange(1, total-3).Draw(t, "r"))
			}
			c.Alike = 1 << 20
		} else {
			c.N = core.GenDims(t, 60, 3000)
			total := c.N[0] * c.N[1] * c.N[2]
			c.Runs = core.GenRuns(t, total)
			if rapid.Bool().Draw(t, "full") {
				c.Runs = []int{0, total}
			}
			c.Alike = rapid.SampledFrom([]int{3, 254, 255, 256, 300, 509, 510, 511, 765, 1 << 20}).Draw(t, "alike")
		}
	case k == 0 && big: // long empty stretches
		c.N = core.GenDims(t, 300, 280000)
		c.Cells = core.GenCells(t, c.N, 6)
		if rapid.Bool().Draw(t, "corner") {
			c.Cells = append(c.Cells, core.P{c.N[0] - 1, c.N[1] - 1, c.N[2] - 1})
		}
	case k <= 2: // sparse, isolated voxels
		c.N = core.GenDims(t, 12, 800)
		c.Cells = core.GenCells(t, c.N, 10)
	default:
		m := genSolidModel(t, 12, 1000)
		c.N, c.Runs = m.N, m.Runs
	}
	if alike || rapid.IntRange(0, 2).Draw(t, "maps") == 0 {
		c.Maps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint32 {
			if rapid.IntRange(0, 3).Draw(t, "mk") == 0 {
				return rapid.SampledFrom([]uint32{0, 1, 255, 256, 1 << 26, core.AllNeighbors &^ 1, core.AllNeighbors &^ (1 << 26), 0x1fff}).Draw(t, "m")
			}
			n := rapid.Uint32Range(0, 1<<27-1).Draw(t, "m") &^ (1 << core.CenterBit)
			if n == core.AllNeighbors {
				n--
			}
			return n
		}), 1, 4).Draw(t, "maps")
	}
	if window {
		c.S, c.C = core.GenWindow(t, c.N, false)
	}
	if !window {
		c.Split = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 100, 254, 255, 256, 1000, 65535}), 0, 3).Draw(t, "split")
	}
	return c
}

func toVShell(s *core.Shell) *vshell.VShell {
	vs := &vshell.VShell{NX: s.N[0], NY: s.N[1], NZ: s.N[2], TX: s.T[0], TY: s.T[1], TZ: s.T[2], Scale: s.Scale}
	for p, n := range s.N26 {
		vs.Voxels = append(vs.Voxels, vshell.VShVoxel{X: p[0], Y: p[1], Z: p[2], N: vshell.NeighborBitMap(n)})
	}
	return vs
}

// sameHeader compares dimensions exactly and header values bit for bit.
func sameHeader(what string, want, got *core.Grid) error {
	if got.N != want.N {
		return core.Failf("%s: dimensions %v, want %v", what, got.N, want.N)
	}
	for i := range want.T {
		if !core.SameFloat(want.T[i], got.T[i]) {
			return core.Failf("%s: translation[%d] %v, want %v", what, i, got.T[i], want.T[i])
		}
	}
	if !core.SameFloat(want.Scale, got.Scale) {
		return core.Failf("%s: scale %v, want %v", what, got.Scale, want.Scale)
	}
	return nil
}

func headerOf(vs *vshell.VShell) *core.Grid {
	return core.NewGrid([3]int{vs.NX, vs.NY, vs.NZ}, [3]float64{vs.TX, vs.TY, vs.TZ}, vs.Scale)
}

func c13() *core.Prop {
	runRT := func(x *core.Ctx, c shellCase) error {
		s := c.shell()
		if len(s.N26) == 0 {
			return nil
		}
		f := filepath.Join(x.Dir(), "s.vsh")
		core.WriteOld(f, c.Old)
		if err := toVShell(s).Write(f, 0, 0, 0, 0, 0, 0); err != nil {
			return core.Failf("write failed: %v", err)
		}
		o, short, err := core.DecodeVShell(readFile(f))
		if err != nil || short {
			return core.Failf("the file of a %v shell is malformed: %v short=%v", s.N, err, short)
		}
		if err := sameHeader("file", &s.Grid, &o.Grid); err != nil {
			return err
		}
		if d := diffShell(s.N26, o.N26); d != "" {
			return core.Failf("file of a %v shell: %s", s.N, d)
		}
		for _, name := range []string{f, writeFile(x, "split.vsh", core.EncodeVShell(s, c.Split))} {
			what := filepath.Base(name) + " read back"
			vs, err := vshell.Read(name, 0, 0, 0, 0, 0, 0)
			if err != nil {
				return core.Failf("%s: %v", what, err)
			}
			if err := sameHeader(what, &s.Grid, headerOf(vs)); err != nil {
				return err
			}
			got, err := shellCells(what, vs)
			if err != nil {
				return err
			}
			if d := diffShell(s.N26, got); d != "" {
				return core.Failf("%s, %v: %s", what, s.N, d)
			}
		}
		for _, n := range s.N26 {
			if n == 0 {
				x.Label("isolated")
				break
			}
		}
		if s.Total() > 65535+len(s.N26) {
			x.Label("long stretch")
		}
		if len(s.N26) > 1 && s.Total() > len(s.N26) {
			x.NonTrivial()
		}
		return nil
	}
	readWin := func(x *core.Ctx, c shellCase) error {
		s := c.shell()
		want := map[core.P]uint32{}
		for p, n := range s.N26 {
			if core.InWindow(p, s.N, c.S, c.C) {
				want[p] = n
			}
		}
		what := fmt.Sprintf("window %v+%v of %v", c.S, c.C, s.N)
		if c.S[0]%2 == 0 { // the file held something else before
			o := &core.Shell{Grid: *core.NewGrid(s.N, s.T, s.Scale), N26: map[core.P]uint32{{s.N[0] - 1, 0, s.N[2] / 2}: 0}}
			vs, err := vshell.Read(writeFile(x, "s.vsh", core.EncodeVShell(o, nil)), 0, 0, 0, 0, 0, 0)
			if err != nil {
				return core.Failf("a shell of one voxel is refused: %v", err)
			}
			got, err := shellCells("shell of one voxel", vs)
			if err != nil {
				return err
			}
			if d := diffShell(o.N26, got); d != "" {
				return core.Failf("shell of one voxel, read: %s", d)
			}
		}
		vs, err := vshell.Read(writeFile(x, "s.vsh", core.EncodeVShell(s, nil)), c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if err != nil {
			return core.Failf("%s: %v", what, err)
		}
		if err := sameHeader(what, &s.Grid, headerOf(vs)); err != nil {
			return err
		}
		got, err := shellCells(what, vs)
		if err != nil {
			return err
		}
		if d := diffShell(want, got); d != "" {
			return core.Failf("%s, read: %s", what, d)
		}
		if len(want) > 0 && len(want) < len(s.N26) {
			x.NonTrivial()
		}
		return nil
	}
	runWin := func(x *core.Ctx, c shellCase) error {
		s := c.shell()
		if len(s.N26) == 0 {
			return nil
		}
		if err := readWin(x, c); err != nil {
			return err
		}
		want := map[core.P]uint32{}
		for p, n := range s.N26 {
			if core.InWindow(p, s.N, c.S, c.C) {
				want[p] = n
			}
		}
		what := fmt.Sprintf("window %v+%v of %v", c.S, c.C, s.N)
		f := filepath.Join(x.Dir(), "w.vsh")
		core.WriteOld(f, c.Old)
		if err := toVShell(s).Write(f, c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2]); err != nil {
			return core.Failf("%s: write failed: %v", what, err)
		}
		o, short, err := core.DecodeVShell(readFile(f))
		if err != nil || short {
			return core.Failf("%s: the file is malformed: %v short=%v", what, err, short)
		}
		mmpv := s.MMPV()
		if !core.Near(o.MMPV(), mmpv, 0) {
			return core.Failf("%s, written: voxel size %v, want %v", what, o.MMPV(), mmpv)
		}
		back := map[core.P]uint32{}
		for p, n := range o.N26 {
			var q core.P
			for i := range q {
				q[i] = p[i] + c.S[i]
				if at, w := o.T[i]+float64(p[i])*o.MMPV(), s.T[i]+float64(q[i])*mmpv; !core.Near(at, w, mmpv) {
					return core.Failf("%s, written: voxel %v is placed at %v on axis %d, want %v", what, q, at, i, w)
				}
			}
			back[q] = n
		}
		if d := diffShell(want, back); d != "" {
			return core.Failf("%s, written: %s", what, d)
		}
		return nil
	}
	a := core.NewArm("write-read", 2700, 40000, func(t *rapid.T) shellCase { return genShell(t, false, true) }, runRT)
	core.Fixed(a, func(bool) []shellCase {
		var out []shellCase
		for _, gap := range []int{65534, 65535, 65536, 65537, 131069, 131070, 131071, 131072} { // empty stretches
			for first := 0; first < 2; first++ {
				out = append(out, shellCase{N: [3]int{1, gap + 1, 1}, Scale: 1, Cells: []core.P{{0, gap * first, 0}}})
				out = append(out, shellCase{N: [3]int{1, gap + 2, 1}, Scale: 1, Cells: []core.P{{0, 0, 0}, {0, gap + 1, 0}}, Maps: []uint32{5}})
			}
		}
		for _, n := range []int{1, 254, 255, 256, 509, 510, 511, 65535, 65536, 66000} { // equal maps
			out = append(out, shellCase{N: [3]int{1, n, 2}, Scale: 1, Runs: []int{0, n}, Maps: []uint32{7}})
			out = append(out, shellCase{N: [3]int{1, n, 2}, Scale: 1, Runs: []int{0, n}, Maps: []uint32{0}})
		}
		for _, m := range core.Crowded() {
			out = append(out, shellCase{N: m.N, T: m.T, Scale: m.Scale, Runs: m.Runs})
		}
		m := core.Vast()
		m.N = [3]int{81, 79, 91}
		return append(out, shellCase{N: m.N, T: m.T, Scale: m.Scale, Runs: m.Runs, Fill: m.Fill})
	})
	sparse := core.NewArm("sparse", 150, 2000, func(t *rapid.T) core.Sparse {
		return core.GenSparse(t, rapid.SampledFrom([]int{1 << 20, 1 << 23}).Draw(t, "cells"))
	}, func(x *core.Ctx, c core.Sparse) error {
		full := core.ShellOf(c.Cells())
		want := map[core.P]uint32{}
		for p, n := range full {
			if core.InWindow(p, c.N, c.S, c.C) {
				want[p] = n
			}
		}
		head := core.NewGrid(c.N, [3]float64{1, -2, 0.5}, 7)
		what := fmt.Sprintf("window %v+%v of %v", c.S, c.C, c.N)
		vs, err := vshell.Read(writeFile(x, "s.vsh", c.VShell()), c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if err != nil {
			return core.Failf("%s: %v", what, err)
		}
		if err := sameHeader(what, head, headerOf(vs)); err != nil {
			return err
		}
		got, err := shellCells(what, vs)
		if err != nil {
			return err
		}
		if d := diffShell(want, got); d != "" {
			return core.Failf("%s: %s", what, d)
		}
		if len(want) > 1 {
			x.NonTrivial()
		}
		if c.N[0]*c.N[1]*c.N[2] > 1<<20 || len(got) == 0 {
			return nil
		}
		f := filepath.Join(x.Dir(), "o.vsh")
		if err := vs.Write(f, 0, 0, 0, 0, 0, 0); err != nil {
			return core.Failf("%s: write: %v", what, err)
		}
		o, short, err := core.DecodeVShell(readFile(f))
		if err != nil || short {
			return core.Failf("%s: the written file is malformed: %v short=%v", what, err, short)
		}
		if err := sameHeader("file of a "+what, head, &o.Grid); err != nil {
			return err
		}
		if d := diffShell(want, o.N26); d != "" {
			return core.Failf("file of a %s: %s", what, d)
		}
		x.Label("written")
		return nil
	})
	core.Fixed(sparse, core.Huge)
	return &core.Prop{
		ID:          "C13",
		Rule:        "a few cells in a grid of up to 2^23 cells, and of more than 2^31, and a window next to them; shells of random models and shells with arbitrary neighbour maps, with isolated voxels and stretches over 65535 empty cells, written, decoded independently, read back, and read from an independently encoded file with other run splits; windows for reading and writing; non-trivial: at least two voxels and an empty cell, or a window that holds some but not all voxels",
		Assumptions: []string{"shells are non-empty and no voxel has all 26 neighbours", "an isolated voxel is stored with the centre bit, which readers drop", "world positions are compared to 1e-9 relative"},
		Arms: []*core.Arm{a, core.NewArm("window", 3750, 50000, func(t *rapid.T) shellCase { return genShell(t, true, false) }, runWin),
			core.NewArm("window-read", 1800, 25000, func(t *rapid.T) shellCase {
				c := genShell(t, true, false)
				c.S, c.C = core.GenWindow(t, c.N, true)
				return c
			}, readWin), sparse},
	}
}

// ---------------------------------------------------------------- C14

func c14() *core.Prop {
	gen := func(t *rapid.T) core.RawFile {
		s := shellCase{N: core.GenDims(t, 6, 120), T: [3]float64{1, -2.5, 0.1}, Scale: 3}
		s.Cells = core.GenCells(t, s.N, 12)
		split := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 100, 255}), 0, 3).Draw(t, "split")
		b := core.GenBytes(t, "#vshell 1", core.EncodeVShell(s.shell(), split), 5)
		c := core.RawFile{Data: b, Text: strings.ToValidUTF8(string(b), "?")}
		if rapid.IntRange(0, 2).Draw(t, "win") == 0 {
			for i := range c.S {
				c.S[i] = rapid.IntRange(0, 4).Draw(t, "s")
				c.C[i] = core.GenCount(t)
			}
		}
		return c
	}
	run := func(x *core.Ctx, c core.RawFile) error {
		want, _, werr := core.DecodeVShell(c.Data)
		f := writeFile(x, "m.vsh", c.Data)
		before := core.Allocated()
		vs, err := vshell.Read(f, c.S[0], c.S[1], c.S[2], c.C[0], c.C[1], c.C[2])
		if used := core.Allocated() - before; used > core.AllocLimit(len(c.Data)) {
			return core.Failf("reading %d bytes allocates %d MB: %q", len(c.Data), used>>20, c.Text)
		}
		if werr == nil {
			for i := range c.S {
				if c.S[i] > want.N[i] {
					werr = fmt.Errorf("start beyond the grid")
				}
			}
		}
		switch {
		case werr != nil && err == nil:
			return core.Failf("malformed content is accepted (%v): %q", werr, c.Text)
		case werr == nil && err != nil:
			return core.Failf("well-formed content is refused (%v): %q", err, c.Text)
		case werr != nil:
			if len(c.Data) > 20 {
				x.NonTrivial()
			}
			x.Label("refused")
			return nil
		}
		g := headerOf(vs)
		for i, v := range want.T { // NaN compares by class
			if math.IsNaN(v) && math.IsNaN(g.T[i]) {
				g.T[i] = v
			}
		}
		if math.IsNaN(want.Scale) && math.IsNaN(g.Scale) {
			g.Scale = want.Scale
		}
		if err := sameHeader("decoded", &want.Grid, g); err != nil {
			return err
		}
		in := map[core.P]uint32{}
		for p, n := range want.N26 {
			if core.InWindow(p, want.N, c.S, c.C) {
				in[p] = n
			}
		}
		got, err := shellCells("decoded", vs)
		if err != nil {
			return err
		}
		if d := diffShell(in, got); d != "" {
			return core.Failf("decoded: %s: %q", d, c.Text)
		}
		x.Label("accepted")
		if len(want.N26) > 0 {
			x.NonTrivial()
		}
		return nil
	}
	a := core.NewArm("bytes", 13500, 250000, gen, run)
	core.Fixed(a, func(bool) []core.RawFile {
		var out []core.RawFile
		add := func(s string) { out = append(out, core.RawFile{Data: []byte(s), Text: s}) }
		h := "#vshell 1\ndim 2 2 2\ntranslate 0 0 0\nscale 1\ndata\n"
		v, e, f := "\x01\x00\x00\x00", "\x00\x00\x00\x00", "\xff\xff\xff\xff"
		for _, tail := range []string{"", v, v + "\x00", v + "\x01", v + "\x08", v + "\x09", v + "\xff", e, e + "\x01", e + "\x00\x00", e + "\x08\x00", e + "\x09\x00", e + "\x00\x01",
			e + "\xff\xff", f, f + "\x08", f + "\x08\x00", f + "\x09\x00", v + "\x08" + e + "\x01\x00", v + "\x07" + e + "\x01\x00", v + "\x08" + e + "\x00\x00", v + "\x08" + v, v + "\x08\x01", v + "\x08\x01\x00", v + "\x08\x01\x00\x00",
			"\xff\xff\xff\x07\x01", "\x00\x20\x00\x00\x02", "\x00\x00\x00\x80\x02"} {
			add(h + tail)
		}
		for _, d := range []string{"0 0 0", "1 0 1", "0 1 1", "1 1 0", "2 0 0", "0 2 2", "1024 1024 1024", "2000 1000 500", "100000000 1 1", "1 1000000000 1", "1 1 3000000000", "20000 20000 20000", "1000000 1000000 1000000", "9223372036854775807 9223372036854775807 2"} {
			for _, tail := range []string{"", v + "\x01", e + "\x01\x00", e + "\x00\x00", v + "\xff"} {
				add("#vshell 1\ndim " + d + "\ntranslate 0 0 0\nscale 1\ndata\n" + tail)
			}
		}
		for i := 0; i <= len(h); i++ {
			add(h[:i])
		}
		return out
	})
	return &core.Prop{
		ID:          "C14",
		Rule:        "byte strings: valid shell files with random run splits, truncations at any byte, appended bytes, flipped bytes, header line variants, tiny and zero dimensions with random runs, and arbitrary bytes; non-trivial: refused content longer than 20 bytes, or accepted content with a voxel",
		Assumptions: []string{"runs that end before the grid is covered are accepted (the existing tests require it), as are runs of empty cells of length zero, which the property does not name", "value 0xffffffff means completely enclosed, which is no shell voxel"},
		Arms:        []*core.Arm{a},
	}
}
