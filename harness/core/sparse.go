package core

import (
	"encoding/binary"
	"fmt"
	"sort"

	"pgregory.net/rapid"
)

// Sparse is the file of a model with few cells in a large grid, and a window.
type Sparse struct {
	N        [3]int    `json:"n"`
	Clusters []Cluster `json:"clusters"`
	S        [3]int    `json:"s"`
	C        [3]int    `json:"c"`
}

// Cells are the occupied cells.
func (c Sparse) Cells() map[P]bool {
	out := map[P]bool{}
	for _, cl := range c.Clusters {
		for p := range cl.Grid().Cells {
			out[P{p[0] + cl.At[0], p[1] + cl.At[1], p[2] + cl.At[2]}] = true
		}
	}
	return out
}

// GenSparse draws a file with long axes, at most max cells, and a window that
// often has an edge in or next to a cluster.
func GenSparse(t *rapid.T, max int) Sparse {
	var c Sparse
	total := 1
	for i, axis := range rapid.Permutation([]int{0, 1, 2}).Draw(t, "axes") {
		most := []int{max, max / total, max / total}[i]
		if i == 0 && rapid.Bool().Draw(t, "two") { // two longer axes
			most = 4000
		}
		n := rapid.IntRange(1, most).Draw(t, "n")
		if rapid.IntRange(0, 2).Draw(t, "bits") == 0 {
			if b := 1<<rapid.IntRange(0, 22).Draw(t, "b") + rapid.IntRange(0, 2).Draw(t, "more"); b <= most {
				n = b
			}
		}
		c.N[axis] = n
		total *= n
	}
	for k := rapid.IntRange(1, 5).Draw(t, "clusters"); k > 0; k-- {
		var cl Cluster
		for i, n := range c.N {
			cl.N[i] = rapid.IntRange(1, min(3, n)).Draw(t, "cn")
			last := n - cl.N[i]
			cl.At[i] = rapid.IntRange(0, last).Draw(t, "at")
			switch rapid.IntRange(0, 3).Draw(t, "where") {
			case 0:
				cl.At[i] = last
			case 1:
				if p := 1<<rapid.IntRange(0, 22).Draw(t, "p") - rapid.IntRange(0, 3).Draw(t, "before"); p >= 0 && p <= last {
					cl.At[i] = p
				}
			}
		}
		cl.Runs = []int{0, cl.N[0] * cl.N[1] * cl.N[2]}
		c.Clusters = append(c.Clusters, cl)
	}
	cl := rapid.SampledFrom(c.Clusters).Draw(t, "near")
	for i, n := range c.N {
		switch rapid.IntRange(0, 3).Draw(t, "window") {
		case 0: // everything
		case 1:
			c.S[i] = min(n-1, cl.At[i]+rapid.IntRange(0, 2).Draw(t, "s"))
			c.C[i] = rapid.IntRange(0, 4).Draw(t, "c")
		case 2:
			c.C[i] = min(n, cl.At[i]+rapid.IntRange(0, 3).Draw(t, "c"))
		default:
			c.S[i] = rapid.IntRange(0, cl.At[i]).Draw(t, "s")
			c.C[i] = cl.At[i] - c.S[i] + rapid.IntRange(0, 3).Draw(t, "c")
		}
	}
	return c
}

// Huge are files with more cells than 32 bits can count.
func Huge(thorough bool) []Sparse {
	grids := [][3]int{{2048, 1024, 1030}}
	if thorough {
		grids = append(grids, [3]int{4096, 1024, 1030}, [3]int{1030, 2050, 1024}, [3]int{3, 1 << 15, 1 << 15})
	}
	var out []Sparse
	for _, n := range grids {
		c := Sparse{N: n}
		for _, at := range []P{{0, 0, 0}, {n[0] / 2, n[1] / 3, n[2] - 2}, {n[0] - 2, n[1] - 1, n[2] - 3}} {
			c.Clusters = append(c.Clusters, Cluster{At: at, N: [3]int{1, 1, 2}, Runs: []int{0, 2}})
		}
		out = append(out, c)
		c.S, c.C = [3]int{n[0] / 3, 0, 1}, [3]int{0, n[1] - 1, n[2] - 1}
		if thorough {
			out = append(out, c)
		}
	}
	return out
}

// Long are files with empty runs of more than 255*2^16 cells.
func Long(thorough bool) []Sparse {
	grids := [][3]int{{5, 2100, 2100}}
	if thorough {
		grids = append(grids, [3]int{300, 300, 300}, [3]int{40, 1700, 1700}, [3]int{2, 1, 9 << 20}, [3]int{1300, 1290, 1290})
	}
	var out []Sparse
	for _, n := range grids {
		c := Sparse{N: n}
		for _, at := range []P{{0, 0, 0}, {n[0] - 1, n[1] - 1, n[2] - 1}} {
			c.Clusters = append(c.Clusters, Cluster{At: at, N: [3]int{1, 1, 1}, Runs: []int{0, 1}})
		}
		out = append(out, c)
	}
	return out
}

// runs calls f with each run of cells of the same value, at most max(v) long.
func (c Sparse) runs(value func(P) uint32, max func(v uint32) int, f func(v uint32, count int)) {
	type cell struct {
		at int
		v  uint32
	}
	var cells []cell
	for p := range c.Cells() {
		if v := value(p); v != 0 {
			cells = append(cells, cell{(p[0]*c.N[2]+p[2])*c.N[1] + p[1], v})
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].at < cells[j].at })
	emit := func(v uint32, n int) {
		for m := max(v); n > 0; n -= m {
			f(v, min(n, m))
		}
	}
	pos := 0
	for i := 0; i < len(cells); {
		emit(0, cells[i].at-pos)
		j := i + 1
		for j < len(cells) && cells[j].at == cells[i].at+j-i && cells[j].v == cells[i].v {
			j++
		}
		emit(cells[i].v, j-i)
		pos = cells[i].at + j - i
		i = j
	}
	emit(0, c.N[0]*c.N[1]*c.N[2]-pos)
}

// Binvox is the voxel file.
func (c Sparse) Binvox() []byte {
	out := []byte(fmt.Sprintf("#binvox 1\ndim %d %d %d\ntranslate 1 -2 0.5\nscale 7\ndata\n", c.N[0], c.N[1], c.N[2]))
	c.runs(func(P) uint32 { return 1 }, func(uint32) int { return 255 }, func(v uint32, n int) { out = append(out, byte(v), byte(n)) })
	return out
}

// VShell is the shell file.
func (c Sparse) VShell() []byte {
	out := []byte(fmt.Sprintf("#vshell 1\ndim %d %d %d\ntranslate 1 -2 0.5\nscale 7\ndata\n", c.N[0], c.N[1], c.N[2]))
	s := ShellOf(c.Cells())
	c.runs(func(p P) uint32 {
		v, ok := s[p]
		if ok && v == 0 {
			v = 1 << CenterBit
		}
		return v
	}, func(v uint32) int {
		if v == 0 {
			return 65535
		}
		return 255
	}, func(v uint32, n int) {
		out = binary.LittleEndian.AppendUint32(out, v)
		if v == 0 {
			out = binary.LittleEndian.AppendUint16(out, uint16(n))
		} else {
			out = append(out, byte(n))
		}
	})
	return out
}
