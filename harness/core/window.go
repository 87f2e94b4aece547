package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime/metrics"

	"pgregory.net/rapid"
)

// Window is a model with the start and count of a window.
type Window struct {
	Model Model  `json:"model"`
	S     [3]int `json:"s"`
	C     [3]int `json:"c"`
	Old   int    `json:"old,omitempty"` // bytes in the target before it is written
}

// GenOld draws the length of the file a write replaces.
func GenOld(t *rapid.T) int {
	return rapid.SampledFrom([]int{0, 0, 1, 100, 100000}).Draw(t, "old")
}

// WriteOld leaves n bytes of earlier content at a path.
func WriteOld(path string, n int) {
	if n <= 0 {
		return
	}
	if err := os.WriteFile(path, OldBytes(n), 0o644); err != nil {
		Infra("write: %v", err)
	}
}

// OldBytes is the content WriteOld leaves.
func OldBytes(n int) []byte {
	return bytes.Repeat([]byte("\x01\x05 old\n"), n/7+1)[:n]
}

// GenCount draws the count of a window of a tiny grid, at times a huge one.
func GenCount(t *rapid.T) int {
	if rapid.IntRange(0, 15).Draw(t, "huge") == 0 {
		return rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt32, 1 << 62}).Draw(t, "c")
	}
	return rapid.IntRange(0, 5).Draw(t, "c")
}

// Allocated is the number of heap bytes this process ever allocated.
func Allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// AllocLimit is far more than a reader needs for a file of n bytes: a run of
// two bytes can hold 255 voxels.
func AllocLimit(n int) uint64 {
	return 128<<20 + 64<<10*uint64(n)
}

// GenWindow draws a window of a grid.
func GenWindow(t *rapid.T, n [3]int, allowEdge bool) (s, c [3]int) {
	for i := range s {
		hi := n[i] - 1
		if allowEdge {
			hi = n[i]
		}
		s[i] = rapid.IntRange(0, hi).Draw(t, "s")
		switch rapid.IntRange(0, 3).Draw(t, "ck") {
		case 0:
			c[i] = 0
		case 1:
			c[i] = 1
		case 2:
			c[i] = rapid.IntRange(0, n[i]).Draw(t, "c")
		default:
			c[i] = rapid.IntRange(0, 2*n[i]+2).Draw(t, "c")
			if allowEdge && rapid.IntRange(0, 3).Draw(t, "huge") == 0 { // start plus count overflows
				c[i] = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt - n[i], math.MaxInt32, 1 << 32, 1 << 62}).Draw(t, "c")
			}
		}
	}
	return s, c
}

// InWindow is the half-open window with 0 (or a large count) meaning the rest.
func InWindow(p P, n, s, c [3]int) bool {
	for i := range p {
		hi := s[i] + c[i]
		if c[i] == 0 || c[i] > n[i] {
			hi = s[i] + n[i]
		}
		if p[i] < s[i] || p[i] >= hi {
			return false
		}
	}
	return true
}

// Windowed is the part of a grid inside a window.
func Windowed(g *Grid, s, c [3]int) *Grid {
	w := NewGrid(g.N, g.T, g.Scale)
	for p := range g.Cells {
		if InWindow(p, g.N, s, c) {
			w.Cells[p] = true
		}
	}
	return w
}

// Near compares world coordinates to 1e-9 relative.
func Near(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b)+scale)
}

// RawFile is arbitrary file content and the window to read.
type RawFile struct {
	Data []byte `json:"data"`
	Text string `json:"text,omitempty"` // for human readers only
	S    [3]int `json:"s"`
	C    [3]int `json:"c"`
}

// GenBytes draws a valid file, mutated, truncated, with broken header lines
// or entirely arbitrary.
func GenBytes(t *rapid.T, magic string, valid []byte, pair int) []byte {
	b := append([]byte(nil), valid...)
	switch rapid.IntRange(0, 6).Draw(t, "kind") {
	case 0:
		return b
	case 1: // truncate anywhere
		return b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
	case 2: // append runs
		extra := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "extra")
		return append(b, extra...)
	case 3: // flip bytes
		k := rapid.IntRange(1, 4).Draw(t, "flips")
		for i := 0; i < k; i++ {
			p := rapid.IntRange(0, len(b)-1).Draw(t, "p")
			b[p] = rapid.Byte().Draw(t, "v")
		}
		return b
	case 4: // header variants
		num := rapid.SampledFrom([]string{"0", "1", "2", "3", "-1", "x", "", "1e3", "1.5", "99999999999999999999", "007", "NaN", "Inf", "-0", "+2", "0x10", "1_0"})
		sp := rapid.SampledFrom([]string{" ", " ", " ", " ", "  ", "\t", ""})
		eol := rapid.SampledFrom([]string{"\n", "\n", "\n", "\n", " \n", "\r\n", "\n\n", ""})
		head := rapid.SampledFrom([]string{magic, magic, magic, magic, "#binvox 2", "#vshell 2", " " + magic, magic + " ", "binvox 1", ""})
		dimw := rapid.SampledFrom([]string{"dim", "dim", "dim", "dim", "Dim", "dims", ""})
		d := func() string { return num.Draw(t, "num") }
		s := func() string { return sp.Draw(t, "sp") }
		e := func() string { return eol.Draw(t, "eol") }
		dim := dimw.Draw(t, "dimw") + s() + d() + s() + d() + s() + d() + e()
		tr := "translate" + s() + d() + s() + d() + s() + d() + e()
		sc := "scale" + s() + d() + e()
		if rapid.IntRange(0, 3).Draw(t, "plain") > 0 { // mostly at most one broken line
			good := []string{"dim 2 3 2\n", "translate 0 -1.5 2\n", "scale 4\n"}
			keep := rapid.IntRange(0, 3).Draw(t, "keep")
			if keep != 0 {
				dim = good[0]
			}
			if keep != 1 {
				tr = good[1]
			}
			if keep != 2 {
				sc = good[2]
			}
			if keep != 3 {
				return append([]byte(magic+"\n"+dim+tr+sc+"data\n"), GenPairs(t, pair)...)
			}
		}
		data := rapid.SampledFrom([]string{"data\n", "data\n", "data\n", "data \n", "Data\n", "data", "\n", ""}).Draw(t, "data")
		out := []byte(head.Draw(t, "head") + e() + dim + tr + sc + data)
		return append(out, GenPairs(t, pair)...)
	case 5: // small dims including zero, with small runs
		var n [3]int
		for i := range n {
			n[i] = rapid.IntRange(0, 3).Draw(t, "n")
		}
		out := []byte(fmt.Sprintf("%s\ndim %d %d %d\ntranslate 0 0 0\nscale 1\ndata\n", magic, n[0], n[1], n[2]))
		return append(out, GenPairs(t, pair)...)
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
}

func GenPairs(t *rapid.T, pair int) []byte {
	var out []byte
	for i := rapid.IntRange(0, 6).Draw(t, "pairs"); i > 0; i-- {
		if pair == 2 { // binvox: value, count
			out = append(out, rapid.SampledFrom([]byte{0, 1, 1, 2, 255}).Draw(t, "v"), rapid.SampledFrom([]byte{0, 1, 1, 2, 3, 5, 255}).Draw(t, "c"))
			continue
		}
		v := rapid.SampledFrom([]uint32{0, 0, 1, 1 << CenterBit, 1 << 26, 1 << 27, AllNeighbors, 0xffffffff, 0x80000000, 0x100}).Draw(t, "v")
		out = binary.LittleEndian.AppendUint32(out, v)
		c := rapid.SampledFrom([]uint16{0, 1, 1, 2, 3, 5, 255, 256, 65535}).Draw(t, "c")
		out = append(out, byte(c))
		if v == 0 || v == 0xffffffff {
			out = append(out, byte(c>>8))
		}
	}
	return out
}
