package core

import (
	"math"

	gl "github.com/fogleman/fauxgl"
	"pgregory.net/rapid"
)

// Solid is a closed, outward-oriented solid.
type Solid struct {
	Kind string       `json:"kind"`           // box, prism, cubes, sphere, torus, octa, tetra
	Size [3]float64   `json:"size"`           // extents before rotation
	Poly [][2]float64 `json:"poly,omitempty"` // prism outline, counterclockwise, unit scale
	Bits int          `json:"bits,omitempty"` // cubes: 3x3x3 occupancy
	N    int          `json:"n,omitempty"`    // sphere, torus: resolution
	Rot  [3]float64   `json:"rot,omitempty"`  // rotations about x, y, z in degrees
	Pos  [3]float64   `json:"pos"`            // position of the centre
}

// Tris is the surface of the solid.
func (s Solid) Tris() []Tri {
	var out []Tri
	add := func(a, b, c Vec) { out = append(out, Tri{a, b, c}) }
	quad := func(a, b, c, d Vec) { add(a, b, c); add(a, c, d) }
	switch s.Kind {
	case "box":
		s.Bits = 1 << 13
		fallthrough
	case "cubes":
		on := func(x, y, z int) bool {
			return x >= 0 && y >= 0 && z >= 0 && x < 3 && y < 3 && z < 3 && s.Bits>>(x+3*y+9*z)&1 == 1
		}
		k := 3.0
		lo := -1.5
		if s.Kind == "box" {
			k, lo = 1, -1.5
		}
		v := func(x, y, z int) Vec {
			return Vec{(float64(x) + lo) / k, (float64(y) + lo) / k, (float64(z) + lo) / k}
		}
		for x := 0; x < 3; x++ {
			for y := 0; y < 3; y++ {
				for z := 0; z < 3; z++ {
					if !on(x, y, z) {
						continue
					}
					if !on(x-1, y, z) {
						quad(v(x, y, z), v(x, y, z+1), v(x, y+1, z+1), v(x, y+1, z))
					}
					if !on(x+1, y, z) {
						quad(v(x+1, y, z), v(x+1, y+1, z), v(x+1, y+1, z+1), v(x+1, y, z+1))
					}
					if !on(x, y-1, z) {
						quad(v(x, y, z), v(x+1, y, z), v(x+1, y, z+1), v(x, y, z+1))
					}
					if !on(x, y+1, z) {
						quad(v(x, y+1, z), v(x, y+1, z+1), v(x+1, y+1, z+1), v(x+1, y+1, z))
					}
					if !on(x, y, z-1) {
						quad(v(x, y, z), v(x, y+1, z), v(x+1, y+1, z), v(x+1, y, z))
					}
					if !on(x, y, z+1) {
						quad(v(x, y, z+1), v(x+1, y, z+1), v(x+1, y+1, z+1), v(x, y+1, z+1))
					}
				}
			}
		}
	case "fine": // a box of which each side is divided into NxN
		for ax := 0; ax < 3; ax++ {
			u, v := (ax+1)%3, (ax+2)%3
			for i := 0; i < s.N; i++ {
				for j := 0; j < s.N; j++ {
					pt := func(side float64, a, b int) (p Vec) {
						p[ax], p[u], p[v] = side, float64(a)/float64(s.N)-0.5, float64(b)/float64(s.N)-0.5
						return p
					}
					quad(pt(0.5, i, j), pt(0.5, i+1, j), pt(0.5, i+1, j+1), pt(0.5, i, j+1))
					quad(pt(-0.5, i, j), pt(-0.5, i, j+1), pt(-0.5, i+1, j+1), pt(-0.5, i+1, j))
				}
			}
		}
	case "prism": // star-shaped about the origin
		n := len(s.Poly)
		for i := range s.Poly {
			a, b := s.Poly[i], s.Poly[(i+1)%n]
			add(Vec{0, 0, 0.5}, Vec{a[0], a[1], 0.5}, Vec{b[0], b[1], 0.5})
			add(Vec{0, 0, -0.5}, Vec{b[0], b[1], -0.5}, Vec{a[0], a[1], -0.5})
			quad(Vec{a[0], a[1], -0.5}, Vec{b[0], b[1], -0.5}, Vec{b[0], b[1], 0.5}, Vec{a[0], a[1], 0.5})
		}
	case "sphere":
		n := s.N
		pt := func(i, j int) Vec {
			if i == 0 {
				return Vec{0, 0, -0.5}
			}
			if i == n {
				return Vec{0, 0, 0.5}
			}
			t, p := math.Pi*float64(i)/float64(n), 2*math.Pi*float64(j%(2*n))/float64(2*n)
			return Vec{0.5 * math.Sin(t) * math.Cos(p), 0.5 * math.Sin(t) * math.Sin(p), -0.5 * math.Cos(t)}
		}
		for j := 0; j < 2*n; j++ {
			add(pt(0, 0), pt(1, j+1), pt(1, j))
			add(pt(n, 0), pt(n-1, j), pt(n-1, j+1))
			for i := 1; i < n-1; i++ {
				quad(pt(i, j), pt(i, j+1), pt(i+1, j+1), pt(i+1, j))
			}
		}
	case "torus":
		n := s.N
		pt := func(i, j int) Vec {
			u, v := 2*math.Pi*float64(i%n)/float64(n), 2*math.Pi*float64(j%n)/float64(n)
			r := 0.34 + 0.16*math.Cos(v)
			return Vec{r * math.Cos(u), r * math.Sin(u), 0.16 * math.Sin(v)}
		}
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				quad(pt(i, j), pt(i+1, j), pt(i+1, j+1), pt(i, j+1))
			}
		}
	case "octa":
		v := [6]Vec{{0.5, 0, 0}, {0, 0.5, 0}, {-0.5, 0, 0}, {0, -0.5, 0}, {0, 0, 0.5}, {0, 0, -0.5}}
		for i := 0; i < 4; i++ {
			add(v[i], v[(i+1)%4], v[4])
			add(v[(i+1)%4], v[i], v[5])
		}
	case "tetra":
		v := [4]Vec{{0.5, 0.5, 0.5}, {-0.5, -0.5, 0.5}, {-0.5, 0.5, -0.5}, {0.5, -0.5, -0.5}}
		add(v[0], v[2], v[1])
		add(v[0], v[1], v[3])
		add(v[0], v[3], v[2])
		add(v[1], v[2], v[3])
	}
	rot := func(p Vec, ax int, deg float64) Vec {
		if deg == 0 {
			return p
		}
		sn, cs := math.Sincos(deg * math.Pi / 180)
		switch deg {
		case 90:
			sn, cs = 1, 0
		case 180:
			sn, cs = 0, -1
		case 270:
			sn, cs = -1, 0
		}
		u, v := (ax+1)%3, (ax+2)%3
		q := p
		q[u] = cs*p[u] - sn*p[v]
		q[v] = sn*p[u] + cs*p[v]
		return q
	}
	for i := range out {
		for j := range out[i] {
			p := out[i][j]
			for k := range p {
				p[k] *= s.Size[k]
			}
			for ax := 0; ax < 3; ax++ {
				p = rot(p, ax, s.Rot[ax])
			}
			for k := range p {
				p[k] += s.Pos[k]
			}
			out[i][j] = p
		}
	}
	return out
}

// SceneTris is the union of the surfaces.
func SceneTris(scene []Solid) []Tri {
	var out []Tri
	for _, s := range scene {
		out = append(out, s.Tris()...)
	}
	return out
}

// GLMesh makes a fauxgl mesh.
func GLMesh(tris []Tri) *gl.Mesh {
	m := &gl.Mesh{}
	v := func(p Vec) gl.Vector { return gl.V(p[0], p[1], p[2]) }
	for _, t := range tris {
		m.Triangles = append(m.Triangles, gl.NewTriangleForPoints(v(t[0]), v(t[1]), v(t[2])))
	}
	return m
}

// Bounds is the bounding box of the triangles.
func Bounds(tris []Tri) (lo, hi Vec) {
	for i := range lo {
		lo[i], hi[i] = math.Inf(1), math.Inf(-1)
	}
	for _, t := range tris {
		for _, p := range t {
			for k := range p {
				lo[k], hi[k] = math.Min(lo[k], p[k]), math.Max(hi[k], p[k])
			}
		}
	}
	return lo, hi
}

// GenSolid draws a solid whose features are about min voxels or thicker, for
// voxels of unit size (positions and sizes are in voxels).
func GenSolid(t *rapid.T, lo, hi float64) Solid {
	s := Solid{Kind: rapid.SampledFrom([]string{"box", "prism", "cubes", "sphere", "torus", "octa", "tetra"}).Draw(t, "kind")}
	grid := rapid.Bool().Draw(t, "ongrid")
	size := func(name string, lo, hi float64) float64 {
		if grid {
			return float64(rapid.IntRange(int(math.Ceil(lo*2)), int(hi*2)).Draw(t, name)) / 2
		}
		return rapid.Float64Range(lo, hi).Draw(t, name)
	}
	for i := range s.Size {
		s.Size[i] = size("size", lo, hi)
	}
	switch s.Kind {
	case "prism":
		n := rapid.IntRange(3, 9).Draw(t, "corners")
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			r := rapid.Float64Range(0.3, 0.5).Draw(t, "radius")
			s.Poly = append(s.Poly, [2]float64{r * math.Cos(a), r * math.Sin(a)})
		}
	case "cubes":
		for i := 0; i < 27; i++ {
			if rapid.IntRange(0, 2).Draw(t, "bit") > 0 {
				s.Bits |= 1 << i
			}
		}
		if s.Bits == 0 {
			s.Bits = 1
		}
	case "sphere":
		s.N = rapid.IntRange(2, 7).Draw(t, "res")
	case "torus":
		s.N = rapid.IntRange(4, 9).Draw(t, "res")
	}
	for i := range s.Rot {
		switch rapid.IntRange(0, 3).Draw(t, "rotk") {
		case 0, 1:
			if rapid.Bool().Draw(t, "quarter") {
				s.Rot[i] = float64(90 * rapid.IntRange(1, 3).Draw(t, "rot"))
			}
		case 2:
			s.Rot[i] = rapid.SampledFrom([]float64{45, 30, 60, 135, 315}).Draw(t, "rot")
		default:
			s.Rot[i] = rapid.Float64Range(0, 360).Draw(t, "rot")
		}
	}
	return s
}

// Slice is the cross-section of a closed mesh with a horizontal plane that
// meets no vertex.
type Slice struct{ segs [][4]float64 }

// SliceAt cuts the mesh; each segment has the solid on its left.
func SliceAt(tris []Tri, z float64) *Slice {
	s := &Slice{}
	for _, t := range tris {
		var in, out [2]float64
		n := 0
		for i := range t {
			a, b := t[i], t[(i+1)%3]
			if (a[2] > z) == (b[2] > z) {
				continue
			}
			f := (z - a[2]) / (b[2] - a[2])
			p := [2]float64{a[0] + f*(b[0]-a[0]), a[1] + f*(b[1]-a[1])}
			if a[2] > z { // going down
				in = p
			} else {
				out = p
			}
			n++
		}
		if n == 2 {
			s.segs = append(s.segs, [4]float64{in[0], in[1], out[0], out[1]})
		}
	}
	return s
}

// Winding is the winding number of a point, which should not be on the outline.
func (s *Slice) Winding(x, y float64) int {
	w := 0
	for _, g := range s.segs {
		if (g[1] > y) == (g[3] > y) {
			continue
		}
		if g[0]+(y-g[1])/(g[3]-g[1])*(g[2]-g[0]) > x {
			if g[3] > g[1] {
				w++
			} else {
				w--
			}
		}
	}
	return w
}

// Dist is the distance of a point to the outline.
func (s *Slice) Dist(x, y float64) float64 {
	best := math.Inf(1)
	for _, g := range s.segs {
		dx, dy := g[2]-g[0], g[3]-g[1]
		l := dx*dx + dy*dy
		t := 0.0
		if l > 0 {
			t = ((x-g[0])*dx + (y-g[1])*dy) / l
			t = math.Max(0, math.Min(1, t))
		}
		best = math.Min(best, math.Hypot(x-g[0]-t*dx, y-g[1]-t*dy))
	}
	return best
}

// Segs are the outline pieces.
func (s *Slice) Segs() [][4]float64 { return s.segs }
