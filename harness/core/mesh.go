package core

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"

	gl "github.com/fogleman/fauxgl"
)

// Vec is a point in space.
type Vec [3]float64

// Tri is an oriented triangle.
type Tri [3]Vec

// LTri is an oriented triangle on an integer lattice.
type LTri [3]P

// MeshTris extracts the vertex positions of a mesh.
func MeshTris(m *gl.Mesh) []Tri {
	out := make([]Tri, 0, len(m.Triangles))
	v := func(p gl.Vector) Vec { return Vec{p.X, p.Y, p.Z} }
	for _, t := range m.Triangles {
		out = append(out, Tri{v(t.V1.Position), v(t.V2.Position), v(t.V3.Position)})
	}
	return out
}

// DecodeSTL is an independent reader of binary STL files.
func DecodeSTL(b []byte) ([]Tri, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("%d bytes are too few for a binary STL", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d bytes for %d triangles, want %d", len(b), n, 84+50*n)
	}
	out := make([]Tri, n)
	for i := range out {
		for k := 0; k < 9; k++ {
			out[i][k/3][k%3] = float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+4*k:])))
		}
	}
	return out, nil
}

// EncodeSTL writes a binary STL file.
func EncodeSTL(tris []Tri) []byte {
	b := make([]byte, 80, 84+50*len(tris))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(tris)))
	for _, t := range tris {
		n := normal(t)
		for _, v := range n {
			b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v)))
		}
		for _, p := range t {
			for _, v := range p {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(float32(v)))
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

// EncodeASCIISTL writes a text STL file, with all digits.
func EncodeASCIISTL(tris []Tri) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "solid x\n")
	for i, t := range tris {
		if i > 0 && i == len(tris)/2 && len(tris)%8 == 4 { // some files have two solids
			fmt.Fprintf(&b, "endsolid x\nsolid y\n")
		}
		n := normal(t)
		fmt.Fprintf(&b, "facet normal %g %g %g\n  outer loop\n", float32(n[0]), float32(n[1]), float32(n[2]))
		for _, p := range t {
			fmt.Fprintf(&b, "    vertex %g %g %g\n", p[0], p[1], p[2])
		}
		fmt.Fprintf(&b, "  endloop\nendfacet\n")
	}
	fmt.Fprintf(&b, "endsolid x\n")
	return b.Bytes()
}

// RespellASCII writes a text STL file in another way that means the same; its
// first and last lines stay.
func RespellASCII(b []byte, how int) []byte {
	lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	var out strings.Builder
	for i, l := range lines {
		first := strings.HasPrefix(strings.TrimSpace(l), "vertex")
		if i > 0 && i < len(lines)-1 {
			if first && how&1 != 0 {
				l = strings.ReplaceAll(strings.ReplaceAll(l, "e", "E"), "vErtEx", "vertex")
				f := strings.Fields(l)
				for k, v := range f {
					if k > 0 && v[0] != '-' && k%2 == how>>1&1 {
						l = strings.Replace(l, " "+v, " +"+v, 1)
					}
				}
			}
			if how&2 != 0 {
				l = strings.ReplaceAll(l, "  ", "\t")
				if first {
					l = strings.ReplaceAll(l, " ", "\t")
				}
			}
			if how&4 != 0 && first {
				l = strings.ReplaceAll(l, " ", "   ") + "  "
			}
			if how&8 != 0 {
				l += "\r"
			}
			if how&16 != 0 && strings.Contains(l, "endfacet") {
				l += "\n\n"
			}
			if how&32 != 0 {
				l = strings.TrimLeft(l, " \t")
			}
		}
		out.WriteString(l + "\n")
	}
	return []byte(out.String())
}

// CutASCII returns the first n bytes of a text STL file, or fewer where these
// are a complete file: those that end between two solids.
func CutASCII(b []byte, n int) []byte {
	b = b[:n]
	for {
		i := bytes.LastIndex(b, []byte("endsolid"))
		if i < 0 || bytes.Contains(b[i:], []byte("\nsolid")) {
			return b
		}
		b = b[:i]
	}
}

func sub(a, b Vec) Vec { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func cross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func normal(t Tri) Vec {
	n := cross(sub(t[1], t[0]), sub(t[2], t[0]))
	l := math.Sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2])
	if l == 0 {
		return Vec{}
	}
	return Vec{n[0] / l, n[1] / l, n[2] / l}
}

// ToVoxels maps a mesh to voxel units: (v - T) / mmpv.
func ToVoxels(tris []Tri, t [3]float64, mmpv float64) []Tri {
	out := make([]Tri, len(tris))
	for i, tr := range tris {
		for j := range tr {
			for k := range tr[j] {
				out[i][j][k] = (tr[j][k] - t[k]) / mmpv
			}
		}
	}
	return out
}

// ToLattice snaps a mesh in voxel units to a lattice of the given subdivision
// and fails if a vertex is further than tol (in lattice units) from it.
func ToLattice(tris []Tri, sub int, tol float64) ([]LTri, error) {
	out := make([]LTri, len(tris))
	for i, tr := range tris {
		for j := range tr {
			for k := range tr[j] {
				f := tr[j][k] * float64(sub)
				r := math.Round(f)
				if !(math.Abs(f-r) <= tol) {
					return nil, fmt.Errorf("vertex %v (in voxels) is not on the 1/%d voxel lattice", tr[j], sub)
				}
				out[i][j][k] = int(r)
			}
		}
	}
	return out, nil
}

func gcd(a, b int) int {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// Unbalanced reports elementary edge pieces that are not traversed equally
// often in both directions; "" means that the surface is closed and
// consistently oriented.
func Unbalanced(tris []LTri) string {
	type seg struct{ a, b P }
	net := map[seg]int{}
	less := func(a, b P) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	for _, t := range tris {
		for i := range t {
			a, b := t[i], t[(i+1)%3]
			g := gcd(gcd(b[0]-a[0], b[1]-a[1]), b[2]-a[2])
			if g == 0 {
				continue
			}
			d := P{(b[0] - a[0]) / g, (b[1] - a[1]) / g, (b[2] - a[2]) / g}
			for j := 0; j < g; j++ {
				p := P{a[0] + j*d[0], a[1] + j*d[1], a[2] + j*d[2]}
				q := P{p[0] + d[0], p[1] + d[1], p[2] + d[2]}
				if less(p, q) {
					net[seg{p, q}]++
				} else {
					net[seg{q, p}]--
				}
			}
		}
	}
	bad := 0
	var ex seg
	first := true
	for s, n := range net {
		if n != 0 {
			bad++
			if first || less(s.a, ex.a) || s.a == ex.a && less(s.b, ex.b) {
				ex, first = s, false
			}
		}
	}
	if bad == 0 {
		return ""
	}
	return fmt.Sprintf("%d edge pieces are not traversed equally in both directions, e.g. %v-%v (lattice units)", bad, ex.a, ex.b)
}

// Rays answers winding numbers along z-rays through a mesh.
type Rays struct {
	tris   []Tri
	bucket map[[2]int][]int
}

// NewRays indexes a mesh (in voxel units).
func NewRays(tris []Tri) *Rays {
	r := &Rays{tris: tris, bucket: map[[2]int][]int{}}
	for i, t := range tris {
		x0, x1 := minmax(t[0][0], t[1][0], t[2][0])
		y0, y1 := minmax(t[0][1], t[1][1], t[2][1])
		for x := int(math.Floor(x0)); x <= int(math.Floor(x1)); x++ {
			for y := int(math.Floor(y0)); y <= int(math.Floor(y1)); y++ {
				r.bucket[[2]int{x, y}] = append(r.bucket[[2]int{x, y}], i)
			}
		}
	}
	return r
}

func minmax(a, b, c float64) (lo, hi float64) {
	return math.Min(a, math.Min(b, c)), math.Max(a, math.Max(b, c))
}

// Winding returns, for each z, the winding number at (x,y,z). The ray must
// not meet a vertex or edge, so x and y should be generic.
func (r *Rays) Winding(x, y float64, zs ...float64) []int {
	type hit struct {
		z float64
		s int
	}
	var hits []hit
	for _, i := range r.bucket[[2]int{int(math.Floor(x)), int(math.Floor(y))}] {
		t := r.tris[i]
		o := func(a, b Vec) float64 { return (b[0]-a[0])*(y-a[1]) - (b[1]-a[1])*(x-a[0]) }
		a, b, c := o(t[0], t[1]), o(t[1], t[2]), o(t[2], t[0])
		s := 0
		if a > 0 && b > 0 && c > 0 {
			s = 1 // normal points up
		} else if a < 0 && b < 0 && c < 0 {
			s = -1
		} else {
			continue
		}
		area := a + b + c
		z := (b*t[0][2] + c*t[1][2] + a*t[2][2]) / area
		hits = append(hits, hit{z, s})
	}
	out := make([]int, len(zs))
	for i, z := range zs {
		for _, h := range hits {
			if h.z > z {
				out[i] += h.s
			}
		}
	}
	return out
}

// Canonical returns the triangles as a sorted multiset: each is rotated so
// that its smallest vertex comes first, which keeps its orientation.
func Canonical(tris []Tri) []Tri {
	out := make([]Tri, len(tris))
	lessV := func(a, b Vec) bool {
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	for i, t := range tris {
		k := 0
		for j := 1; j < 3; j++ {
			if lessV(t[j], t[k]) {
				k = j
			}
		}
		out[i] = Tri{t[k], t[(k+1)%3], t[(k+2)%3]}
	}
	sort.Slice(out, func(i, j int) bool {
		for k := range out[i] {
			if out[i][k] != out[j][k] {
				return lessV(out[i][k], out[j][k])
			}
		}
		return false
	})
	return out
}

// Round32 rounds coordinates to what an STL file can hold.
func Round32(tris []Tri) []Tri {
	out := make([]Tri, len(tris))
	for i, t := range tris {
		for j := range t {
			for k := range t[j] {
				out[i][j][k] = float64(float32(t[j][k]))
			}
		}
	}
	return out
}

// DiffTris compares two triangle multisets, "" if equal.
func DiffTris(want, got []Tri) string {
	w, g := Canonical(want), Canonical(got)
	if len(w) != len(g) {
		return fmt.Sprintf("%d triangles, want %d", len(g), len(w))
	}
	for i := range w {
		if w[i] != g[i] {
			return fmt.Sprintf("triangle sets differ: got %v, want %v (sorted position %d of %d)", g[i], w[i], i, len(w))
		}
	}
	return ""
}

// ClosedMesh checks that a mesh given in voxel units lies on the lattice, is
// closed and consistently oriented.
func ClosedMesh(vox []Tri, sub int, tol float64) error {
	l, err := ToLattice(vox, sub, tol)
	if err != nil {
		return err
	}
	if s := Unbalanced(l); s != "" {
		return fmt.Errorf("the surface is not closed: %s", s)
	}
	return nil
}

// Blocky checks that a mesh in voxel units covers exactly the exposed faces
// of the cells, once each, with outward normals.
func Blocky(vox []Tri, cells map[P]bool, tol float64) error {
	l, err := ToLattice(vox, 1, tol)
	if err != nil {
		return err
	}
	// A face is a cell and the direction of the normal that leaves it.
	type face struct {
		cell P
		axis int
		dir  int
	}
	area := map[face]float64{}
	pts := [4][2]float64{{0.13741932, 0.21128374}, {0.78341927, 0.34119283}, {0.41928173, 0.87712991}, {0.57139817, 0.09341173}} // on no diagonal of a rectangle of cells
	hits := map[face][4]int{}
	for _, t := range l {
		axis := -1
		for a := 0; a < 3; a++ {
			if t[0][a] == t[1][a] && t[1][a] == t[2][a] {
				if axis >= 0 {
					axis = -2
					break
				}
				axis = a
			}
		}
		if axis == -2 {
			continue // degenerate: covers nothing
		}
		if axis < 0 {
			return fmt.Errorf("triangle %v is not parallel to a cell face", t)
		}
		u, v := (axis+1)%3, (axis+2)%3
		p := [3][2]float64{}
		for i := range t {
			p[i] = [2]float64{float64(t[i][u]), float64(t[i][v])}
		}
		s := (p[1][0]-p[0][0])*(p[2][1]-p[0][1]) - (p[1][1]-p[0][1])*(p[2][0]-p[0][0])
		if s == 0 {
			continue
		}
		dir := 1
		if s < 0 {
			dir = -1
			p[1], p[2] = p[2], p[1]
		}
		u0, u1 := minmax(p[0][0], p[1][0], p[2][0])
		v0, v1 := minmax(p[0][1], p[1][1], p[2][1])
		for i := int(u0); i < int(u1); i++ {
			for j := int(v0); j < int(v1); j++ {
				ar := clipArea(p, float64(i), float64(j))
				if ar <= 0 {
					continue
				}
				var c P
				c[u], c[v], c[axis] = i, j, t[0][axis]
				if dir > 0 {
					c[axis]--
				}
				f := face{c, axis, dir}
				area[f] += ar
				h := hits[f]
				for k, q := range pts {
					if inside(p, float64(i)+q[0], float64(j)+q[1]) {
						h[k]++
					}
				}
				hits[f] = h
			}
		}
	}
	want := map[face]bool{}
	for c := range cells {
		for a := 0; a < 3; a++ {
			for _, d := range []int{-1, 1} {
				n := c
				n[a] += d
				if !cells[n] {
					want[face{c, a, d}] = true
				}
			}
		}
	}
	for f := range want {
		if math.Abs(area[f]-1) > 1e-6 || hits[f] != [4]int{1, 1, 1, 1} {
			return fmt.Errorf("the exposed face of cell %v in direction %+d of axis %d is covered with area %v (hits %v), want exactly once", f.cell, f.dir, f.axis, area[f], hits[f])
		}
	}
	for f := range area {
		if !want[f] {
			return fmt.Errorf("surface where no cell face is exposed: at cell %v, direction %+d of axis %d", f.cell, f.dir, f.axis)
		}
	}
	return nil
}

func inside(p [3][2]float64, x, y float64) bool {
	for i := range p {
		a, b := p[i], p[(i+1)%3]
		if (b[0]-a[0])*(y-a[1])-(b[1]-a[1])*(x-a[0]) <= 0 {
			return false
		}
	}
	return true
}

// clipArea is the area of a counterclockwise triangle within the unit square at (x,y).
func clipArea(p [3][2]float64, x, y float64) float64 {
	poly := [][2]float64{p[0], p[1], p[2]}
	clip := func(ax int, lim, sgn float64) {
		var out [][2]float64
		for i := range poly {
			a, b := poly[i], poly[(i+1)%len(poly)]
			da, db := sgn*(a[ax]-lim), sgn*(b[ax]-lim)
			if da >= 0 {
				out = append(out, a)
			}
			if da >= 0 != (db >= 0) {
				t := da / (da - db)
				out = append(out, [2]float64{a[0] + t*(b[0]-a[0]), a[1] + t*(b[1]-a[1])})
			}
		}
		poly = out
	}
	clip(0, x, 1)
	clip(0, x+1, -1)
	clip(1, y, 1)
	clip(1, y+1, -1)
	s := 0.0
	for i := range poly {
		a, b := poly[i], poly[(i+1)%len(poly)]
		s += a[0]*b[1] - a[1]*b[0]
	}
	return s / 2
}
