package core

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// Cluster is a small block of cells somewhere in a huge grid.
type Cluster struct {
	At   P      `json:"at"`
	N    [3]int `json:"n"`
	Runs []int  `json:"runs"`
}

// Grid is the block in a grid of its own.
func (c Cluster) Grid() *Grid {
	return Model{N: c.N, Scale: float64(max(c.N[0], c.N[1], c.N[2])), Runs: c.Runs}.Grid()
}

// GenClusters draws the dimensions of a grid that may be huge, and blocks of
// up to 4x4x4 cells in it, at least two cells apart. With apart they are so on
// every axis, so that no two have faces in one plane.
func GenClusters(t *rapid.T, apart bool) (n [3]int, out []Cluster) {
	for i := range n {
		switch rapid.IntRange(0, 4).Draw(t, "size") {
		case 0:
			n[i] = rapid.IntRange(4, 40).Draw(t, "n")
		case 1:
			n[i] = rapid.IntRange(200, 5000).Draw(t, "n")
		case 2:
			n[i] = 1<<rapid.IntRange(6, 20).Draw(t, "bits") + rapid.IntRange(0, 3).Draw(t, "more")
		default:
			n[i] = rapid.IntRange(30000, 1<<21).Draw(t, "n")
		}
	}
	for k := rapid.IntRange(1, 6).Draw(t, "clusters"); k > 0; k-- {
		var c Cluster
		for i := range n {
			c.N[i] = rapid.IntRange(1, min(4, n[i])).Draw(t, "cn")
			last := n[i] - c.N[i]
			switch rapid.IntRange(0, 4).Draw(t, "where") {
			case 0:
				c.At[i] = 0
			case 1:
				c.At[i] = last
			case 2: // around a power of two
				c.At[i] = min(last, max(0, 1<<rapid.IntRange(0, 20).Draw(t, "p")-rapid.IntRange(0, 4).Draw(t, "before")))
			case 3: // in line with another one, so that packed indices may meet
				if len(out) > 0 {
					c.At[i] = min(last, out[len(out)-1].At[i])
					break
				}
				fallthrough
			default:
				c.At[i] = rapid.IntRange(0, last).Draw(t, "at")
			}
		}
		total := c.N[0] * c.N[1] * c.N[2]
		if rapid.Bool().Draw(t, "full") {
			c.Runs = []int{0, total}
		} else {
			c.Runs = GenBits(t, total)
		}
		ok := true
		for _, o := range out {
			axes := 0
			for i := range n {
				if c.At[i]+c.N[i]+2 <= o.At[i] || o.At[i]+o.N[i]+2 <= c.At[i] {
					axes++
				}
			}
			ok = ok && (axes == 3 || axes > 0 && !apart)
		}
		if ok {
			out = append(out, c)
		}
	}
	return n, out
}

// SplitClusters divides a mesh, in voxel units, over the clusters, and moves
// each part to its cluster's origin. A triangle that is near none is an error.
func SplitClusters(tris []Tri, cs []Cluster) ([][]Tri, error) {
	out := make([][]Tri, len(cs))
next:
	for _, t := range tris {
		for i, c := range cs {
			in := true
			for k := range c.At {
				lo, hi := minmax(t[0][k], t[1][k], t[2][k])
				in = in && lo >= float64(c.At[k])-0.75 && hi <= float64(c.At[k]+c.N[k])+0.75
			}
			if !in {
				continue
			}
			for j := range t {
				for k := range t[j] {
					t[j][k] -= float64(c.At[k])
					if math.IsNaN(t[j][k]) {
						return nil, fmt.Errorf("triangle %v", t)
					}
				}
			}
			out[i] = append(out[i], t)
			continue next
		}
		return nil, Failf("triangle %v is at none of the cells", t)
	}
	return out, nil
}

// Large is a model of many cells.
type Large struct {
	N    [3]int     `json:"n"`
	T    [3]float64 `json:"t"`
	MMPV float64    `json:"mmpv"`
	Kind int        `json:"kind"`
	Seed uint32     `json:"seed"`
}

func (c Large) Grid() *Grid {
	g := NewGrid(c.N, c.T, c.MMPV*float64(max(c.N[0], c.N[1], c.N[2])))
	h := c.Seed | 1
	for i := 0; i < c.N[0]; i++ {
		for j := 0; j < c.N[1]; j++ {
			for k := 0; k < c.N[2]; k++ {
				h ^= h << 13
				h ^= h >> 17
				h ^= h << 5
				var in bool
				switch c.Kind {
				case 0: // full
					in = true
				case 1: // an ellipsoid
					var r float64
					for a, v := range [3]int{i, j, k} {
						d := (2*float64(v)+1)/float64(c.N[a]) - 1
						r += d * d
					}
					in = r <= 1
				case 2: // dense bits
					in = h&7 < c.Seed>>29
				default: // sheets
					in = (i*int(c.Seed>>28&3)+j*int(c.Seed>>26&3)+k*int(c.Seed>>24&3))%(2+int(c.Seed>>20&3)) == 0
				}
				if in {
					g.Cells[P{i, j, k}] = true
				}
			}
		}
	}
	return g
}

// GenLarge draws a model of up to max cells per axis.
func GenLarge(t *rapid.T, max int) Large {
	c := Large{Kind: rapid.IntRange(0, 3).Draw(t, "kind"), Seed: rapid.Uint32().Draw(t, "seed"), MMPV: rapid.SampledFrom([]float64{0.125, 0.3, 1, 2}).Draw(t, "mmpv")}
	for i := range c.N {
		c.N[i] = rapid.IntRange(4, max).Draw(t, "n")
		c.T[i] = GenModerate(t, "t")
	}
	return c
}

// Crowded are models of more than 2^16 cells, one of half as many apart from each other.
func Crowded() []Model {
	scattered := make([]int, 0, 70000)
	for i := 0; i < 35000; i++ {
		scattered = append(scattered, 1, 1)
	}
	return []Model{
		{N: [3]int{257, 257, 1}, T: [3]float64{1, 2, 3}, Scale: 257 * 0.5, Runs: []int{0, 257 * 257}},
		{N: [3]int{1, 130, 511}, T: [3]float64{-1, 2, -3}, Scale: 511 * 0.5, Runs: []int{3, 130*511 - 7}},
		{N: [3]int{41, 41, 41}, T: [3]float64{1, 2, 3}, Scale: 41, Runs: []int{0, 41 * 41 * 41}},
		{N: [3]int{7, 100, 101}, Scale: 101 * 0.25, Runs: scattered},
		{N: [3]int{3, 150, 151}, Scale: 151 * 0.25, Runs: []int{2, 3 * 150 * 151}},
	}
}

// CrowdedWindows are windows of Crowded with more than 2^16 cells, or close to it.
func CrowdedWindows() (out []Window) {
	for i, m := range Crowded() {
		out = append(out, Window{Model: m}, Window{Model: m, S: [3]int{0, i & 1, 0}, C: [3]int{0, m.N[1] - 1, m.N[2]}})
	}
	return out
}

// Vast is a model with so many runs that its files take several MB.
func Vast() Model {
	return Model{N: [3]int{141, 129, 131}, T: [3]float64{4, 5, -6}, Scale: 141 * 0.5, Runs: []int{1, 1}, Fill: true}
}
