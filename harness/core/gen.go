package core

import (
	"math"

	"pgregory.net/rapid"
)

// Model is a JSON-serialisable voxel model: alternating runs of empty and
// filled cells (starting with empty) in file order; the rest is empty.
type Model struct {
	N     [3]int     `json:"n"`
	T     [3]float64 `json:"t"`
	Scale float64    `json:"scale"`
	Runs  []int      `json:"runs"`
	Fill  bool       `json:"fill,omitempty"` // the runs are repeated to the end of the grid
}

// Grid expands the model.
func (m Model) Grid() *Grid {
	g := NewGrid(m.N, m.T, m.Scale)
	total := g.Total()
	pos := 0
	for i := 0; i < len(m.Runs) || m.Fill && pos < total; i++ {
		r := m.Runs[i%len(m.Runs)]
		for k := 0; k < r && pos < total; k++ {
			if i%2 == 1 {
				g.Cells[g.At(pos)] = true
			}
			pos++
		}
	}
	return g
}

// GenFloat draws a finite float with a wide range of magnitudes.
func GenFloat(t *rapid.T, name string) float64 {
	switch rapid.IntRange(0, 4).Draw(t, name+"_k") {
	case 0:
		return float64(rapid.IntRange(-200, 200).Draw(t, name))
	case 1:
		return float64(rapid.IntRange(-4096, 4096).Draw(t, name)) / 64
	case 2:
		return rapid.Float64Range(-1000, 1000).Draw(t, name)
	case 3:
		return rapid.Float64Range(-1e-6, 1e-6).Draw(t, name)
	}
	f := rapid.Float64().Draw(t, name)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0
	}
	return f
}

// GenModerate draws a float of moderate magnitude.
func GenModerate(t *rapid.T, name string) float64 {
	switch rapid.IntRange(0, 2).Draw(t, name+"_k") {
	case 0:
		return float64(rapid.IntRange(-50, 50).Draw(t, name))
	case 1:
		return float64(rapid.IntRange(-4096, 4096).Draw(t, name)) / 64
	}
	return rapid.Float64Range(-100, 100).Draw(t, name)
}

// GenScale draws a positive scale.
func GenScale(t *rapid.T, name string) float64 {
	switch rapid.IntRange(0, 3).Draw(t, name+"_k") {
	case 0:
		return float64(rapid.IntRange(1, 300).Draw(t, name))
	case 1:
		return float64(rapid.IntRange(1, 4096).Draw(t, name)) / 64
	case 2:
		return rapid.Float64Range(1e-3, 1000).Draw(t, name)
	}
	f := math.Abs(rapid.Float64().Draw(t, name))
	if !(f > 1e-300 && f < 1e300) {
		return 1
	}
	return f
}

// GenDims draws grid dimensions with at most maxCells cells.
func GenDims(t *rapid.T, maxDim, maxCells int) [3]int {
	var n [3]int
	long := rapid.IntRange(0, 5).Draw(t, "long")
	for i := range n {
		m := maxDim
		if long < 3 && i != long && m > 4 {
			m = 4
		}
		n[i] = rapid.IntRange(1, m).Draw(t, "n")
	}
	for n[0]*n[1]*n[2] > maxCells {
		big := 0
		for i := range n {
			if n[i] > n[big] {
				big = i
			}
		}
		n[big] = (n[big] + 1) / 2
	}
	return n
}

// GenRuns draws alternating runs that cover up to total cells.
func GenRuns(t *rapid.T, total int) []int {
	mode := rapid.IntRange(0, 3).Draw(t, "mode")
	var runs []int
	pos := 0
	edge := rapid.SampledFrom([]int{1, 2, 127, 128, 253, 254, 255, 256, 257, 509, 510, 511, 765, 1020, 1275})
	for i := 0; pos < total && i < 400; i++ {
		var r int
		switch mode {
		case 0:
			r = rapid.IntRange(0, 3).Draw(t, "r")
		case 1:
			r = edge.Draw(t, "r")
		case 2:
			r = rapid.IntRange(0, total).Draw(t, "r")
		default:
			r = rapid.IntRange(0, 12).Draw(t, "r")
		}
		if i == 0 && mode == 1 && rapid.Bool().Draw(t, "first") {
			r = 0
		}
		if pos+r > total || rapid.IntRange(0, 60).Draw(t, "rest") == 60 {
			r = total - pos
		}
		runs = append(runs, r)
		pos += r
	}
	return runs
}

// GenCells draws a small explicit cell list inside dims.
func GenCells(t *rapid.T, n [3]int, max int) []P {
	cell := rapid.Custom(func(t *rapid.T) P {
		return P{rapid.IntRange(0, n[0]-1).Draw(t, "x"), rapid.IntRange(0, n[1]-1).Draw(t, "y"), rapid.IntRange(0, n[2]-1).Draw(t, "z")}
	})
	return rapid.SliceOfN(cell, 0, max).Draw(t, "cells")
}

// GenBits draws a dense occupancy of dims with a random density, as runs.
func GenBits(t *rapid.T, total int) []int {
	d := rapid.IntRange(1, 15).Draw(t, "density")
	var runs []int
	cur, length := false, 0
	for i := 0; i < total; i++ {
		v := rapid.IntRange(1, 16).Draw(t, "b") <= d
		if v == cur {
			length++
			continue
		}
		runs = append(runs, length)
		cur, length = v, 1
	}
	return append(runs, length)
}

// Paint is the colour of a cell of a coloured model: black, white,
// transparent and other colours, in no order.
func Paint(p P) [4]float64 {
	h := uint32(p[0]*73856093) ^ uint32(p[1]*19349663) ^ uint32(p[2]*83492791)
	h ^= h >> 13
	h *= 0x5bd1e995
	h ^= h >> 15
	return [][4]float64{{0, 0, 0, 1}, {1, 1, 1, 1}, {0, 0, 0, 0}, {1, 0.5, 0.25, 1}, {0, 0, 1, 0.5}, {0.3, 0.3, 0.3, 1}, {1, 0, 0, 0}, {-1, 2, 0.5, 1}}[h%8]
}
