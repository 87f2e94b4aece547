package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// P is a voxel index.
type P [3]int

// Grid is the oracle's view of a voxel model.
type Grid struct {
	N     [3]int
	T     [3]float64
	Scale float64
	Cells map[P]bool
}

// NewGrid returns an empty grid.
func NewGrid(n [3]int, t [3]float64, scale float64) *Grid {
	return &Grid{N: n, T: t, Scale: scale, Cells: map[P]bool{}}
}

// Dim is the largest dimension.
func (g *Grid) Dim() int {
	d := g.N[0]
	for _, v := range g.N {
		if v > d {
			d = v
		}
	}
	return d
}

// MMPV is the size of a cell.
func (g *Grid) MMPV() float64 { return g.Scale / float64(g.Dim()) }

// Sorted returns the cells in a fixed order.
func (g *Grid) Sorted() []P {
	out := make([]P, 0, len(g.Cells))
	for p := range g.Cells {
		out = append(out, p)
	}
	SortP(out)
	return out
}

// SortP sorts cells.
func SortP(out []P) {
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a[0] != b[0] {
			return a[0] < b[0]
		}
		if a[1] != b[1] {
			return a[1] < b[1]
		}
		return a[2] < b[2]
	})
}

// At returns the cell with linear position i in file order (y fastest, then z, then x).
func (g *Grid) At(i int) P {
	y := i % g.N[1]
	z := i / g.N[1] % g.N[2]
	x := i / g.N[1] / g.N[2]
	return P{x, y, z}
}

// Total is the number of grid positions.
func (g *Grid) Total() int { return g.N[0] * g.N[1] * g.N[2] }

// DiffCells describes the difference between two cell sets, "" if equal.
func DiffCells(want, got map[P]bool) string {
	var missing, extra []P
	for p := range want {
		if !got[p] {
			missing = append(missing, p)
		}
	}
	for p := range got {
		if !want[p] {
			extra = append(extra, p)
		}
	}
	if len(missing) == 0 && len(extra) == 0 {
		return ""
	}
	SortP(missing)
	SortP(extra)
	cut := func(l []P) []P {
		if len(l) > 12 {
			return l[:12]
		}
		return l
	}
	return fmt.Sprintf("%d missing %v, %d unexpected %v (of %d expected)", len(missing), cut(missing), len(extra), cut(extra), len(want))
}

// SameFloat is bitwise equality.
func SameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

var (
	oDim   = regexp.MustCompile(`^dim (\d+) (\d+) (\d+)\s*$`)
	oTrans = regexp.MustCompile(`^translate (\S+) (\S+) (\S+)\s*$`)
	oScale = regexp.MustCompile(`^scale (\S+)\s*$`)
)

// header parses the five header lines shared by binvox and vshell files.
func header(b []byte, magic string, strict bool) (g *Grid, rest []byte, err error) {
	line := func() (string, error) {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return "", fmt.Errorf("missing header line")
		}
		s := string(b[:i+1])
		b = b[i+1:]
		return s, nil
	}
	l, err := line()
	if err != nil {
		return nil, nil, err
	}
	if l != magic+"\n" {
		return nil, nil, fmt.Errorf("bad magic %q", l)
	}
	g = NewGrid([3]int{}, [3]float64{}, 0)
	if l, err = line(); err != nil {
		return nil, nil, err
	}
	m := oDim.FindStringSubmatch(l)
	if m == nil {
		return nil, nil, fmt.Errorf("bad dim line %q", l)
	}
	for i := range g.N {
		if g.N[i], err = strconv.Atoi(m[i+1]); err != nil {
			return nil, nil, err
		}
	}
	if l, err = line(); err != nil {
		return nil, nil, err
	}
	if m = oTrans.FindStringSubmatch(l); m == nil {
		return nil, nil, fmt.Errorf("bad translate line %q", l)
	}
	for i := range g.T {
		if g.T[i], err = strconv.ParseFloat(m[i+1], 64); err != nil {
			return nil, nil, err
		}
	}
	if l, err = line(); err != nil {
		return nil, nil, err
	}
	if m = oScale.FindStringSubmatch(l); m == nil {
		return nil, nil, fmt.Errorf("bad scale line %q", l)
	}
	if g.Scale, err = strconv.ParseFloat(m[1], 64); err != nil {
		return nil, nil, err
	}
	if l, err = line(); err != nil {
		return nil, nil, err
	}
	if l != "data\n" {
		return nil, nil, fmt.Errorf("bad data line %q", l)
	}
	return g, b, nil
}

// DecodeBinvox is an independent reader. short reports that the runs end
// before the grid is covered.
func DecodeBinvox(b []byte) (g *Grid, short bool, err error) {
	g, b, err = header(b, "#binvox 1", true)
	if err != nil {
		return nil, false, err
	}
	total, over := mul3(g.N)
	pos := 0
	for len(b) > 0 {
		if len(b) == 1 {
			return nil, false, fmt.Errorf("value without count")
		}
		v, c := b[0], int(b[1])
		b = b[2:]
		if v > 1 {
			return nil, false, fmt.Errorf("value %d", v)
		}
		if c == 0 {
			return nil, false, fmt.Errorf("zero count")
		}
		if !over && pos+c > total {
			return nil, false, fmt.Errorf("overrun")
		}
		if v == 1 {
			for i := 0; i < c; i++ {
				g.Cells[g.At(pos+i)] = true
			}
		}
		pos += c
	}
	return g, over || pos < total, nil
}

func mul3(n [3]int) (int, bool) {
	const lim = 1 << 50
	t := 1
	for _, v := range n {
		if v == 0 {
			return 0, false
		}
	}
	for _, v := range n {
		if v > lim/t {
			return lim, true
		}
		t *= v
	}
	return t, false
}

// EncodeBinvox writes a binvox file, with runs split at the given lengths
// (cycled; empty means as long as possible).
func EncodeBinvox(g *Grid, split []int) []byte {
	var sb strings.Builder
	fmt.Fprintf(&sb, "#binvox 1\ndim %d %d %d\ntranslate %s %s %s\nscale %s\ndata\n", g.N[0], g.N[1], g.N[2], ff(g.T[0]), ff(g.T[1]), ff(g.T[2]), ff(g.Scale))
	out := []byte(sb.String())
	total := g.Total()
	k := 0
	for i := 0; i < total; {
		v := g.Cells[g.At(i)]
		max := 255
		if len(split) > 0 {
			if s := split[k%len(split)]; s >= 1 && s < max {
				max = s
			}
			k++
		}
		j := i + 1
		for j < total && j-i < max && g.Cells[g.At(j)] == v {
			j++
		}
		val := byte(0)
		if v {
			val = 1
		}
		out = append(out, val, byte(j-i))
		i = j
	}
	return out
}

func ff(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// Shell is the oracle's view of a shell model.
type Shell struct {
	Grid
	N26 map[P]uint32
	Dup bool // some voxel occurs twice
}

// CenterBit is the bit position of the centre cell in a neighbour map.
const CenterBit = 13

// AllNeighbors is the map of a completely enclosed voxel.
const AllNeighbors = uint32(1<<27-1) &^ (1 << CenterBit)

// NBit is the bit of the neighbour at offset (x,y,z), each in -1..1.
func NBit(x, y, z int) uint32 { return 1 << uint((x+1)*9+(y+1)*3+(z+1)) }

// ShellOf computes the exact shell of a cell set.
func ShellOf(cells map[P]bool) map[P]uint32 {
	out := map[P]uint32{}
	for p := range cells {
		var n uint32
		for x := -1; x <= 1; x++ {
			for y := -1; y <= 1; y++ {
				for z := -1; z <= 1; z++ {
					if (x != 0 || y != 0 || z != 0) && cells[P{p[0] + x, p[1] + y, p[2] + z}] {
						n |= NBit(x, y, z)
					}
				}
			}
		}
		if n != AllNeighbors {
			out[p] = n
		}
	}
	return out
}

// DecodeVShell is an independent reader of shell files.
func DecodeVShell(b []byte) (s *Shell, short bool, err error) {
	g, b, err := header(b, "#vshell 1", true)
	if err != nil {
		return nil, false, err
	}
	s = &Shell{Grid: *g, N26: map[P]uint32{}}
	total, over := mul3(g.N)
	pos := 0
	for len(b) > 0 {
		if len(b) < 4 {
			return nil, false, fmt.Errorf("truncated value")
		}
		v := binary.LittleEndian.Uint32(b)
		b = b[4:]
		c := 0
		if v == 0 || v == 0xffffffff {
			if len(b) < 2 {
				return nil, false, fmt.Errorf("truncated count")
			}
			c = int(binary.LittleEndian.Uint16(b))
			b = b[2:]
		} else {
			if len(b) < 1 {
				return nil, false, fmt.Errorf("truncated count")
			}
			c = int(b[0])
			b = b[1:]
			if c == 0 {
				return nil, false, fmt.Errorf("zero count")
			}
		}
		if !over && pos+c > total {
			return nil, false, fmt.Errorf("overrun")
		}
		if v != 0 && v != 0xffffffff {
			for i := 0; i < c; i++ {
				s.N26[s.At(pos+i)] = v &^ (1 << CenterBit)
			}
		}
		pos += c
	}
	return s, over || pos < total, nil
}

// EncodeVShell writes a shell file in the documented layout.
func EncodeVShell(s *Shell, split []int) []byte {
	out := []byte(fmt.Sprintf("#vshell 1\ndim %d %d %d\ntranslate %s %s %s\nscale %s\ndata\n", s.N[0], s.N[1], s.N[2], ff(s.T[0]), ff(s.T[1]), ff(s.T[2]), ff(s.Scale)))
	total := s.Total()
	k := 0
	for i := 0; i < total; {
		value := func(i int) uint32 { // an isolated voxel is marked by the centre bit
			v, ok := s.N26[s.At(i)]
			if ok && v == 0 {
				v = 1 << CenterBit
			}
			return v
		}
		v := value(i)
		max := 255
		if v == 0 {
			max = 65535
		}
		if len(split) > 0 {
			if q := split[k%len(split)]; q >= 1 && q < max {
				max = q
			}
			k++
		}
		j := i + 1
		for j < total && j-i < max && value(j) == v {
			j++
		}
		out = binary.LittleEndian.AppendUint32(out, v)
		if v == 0 {
			out = binary.LittleEndian.AppendUint16(out, uint16(j-i))
		} else {
			out = append(out, byte(j-i))
		}
		i = j
	}
	return out
}
