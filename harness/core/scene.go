package core

import (
	"math"

	"pgregory.net/rapid"
)

// Scene is a set of solids given in voxel units relative to the origin of a
// grid, and the placement of that grid in the world.
type Scene struct {
	N      [3]int     `json:"n"`
	T      [3]float64 `json:"t"`
	MMPV   float64    `json:"mmpv"`
	Solids []Solid    `json:"scene"`
}

// Scale is the grid's scale in the sense of the binvox format.
func (c Scene) Scale() float64 { return float64(max(c.N[0], c.N[1], c.N[2])) * c.MMPV }

// World is the surface in millimetres.
func (c Scene) World() []Tri {
	tris := SceneTris(c.Solids)
	for i := range tris {
		for j := range tris[i] {
			for k := range tris[i][j] {
				tris[i][j][k] = c.T[k] + tris[i][j][k]*c.MMPV
			}
		}
	}
	return tris
}

func radius(s Solid) float64 {
	return math.Sqrt(s.Size[0]*s.Size[0]+s.Size[1]*s.Size[1]+s.Size[2]*s.Size[2]) / 2
}

// GenSolids draws one to three solids around a grid of n cells.
func GenSolids(t *rapid.T, n [3]int, lo, hi float64, overlap bool) []Solid {
	var scene []Solid
	k := rapid.IntRange(1, 3).Draw(t, "solids")
	for i := 0; i < k; i++ {
		s := GenSolid(t, lo, hi)
		on := rapid.Bool().Draw(t, "posgrid")
		for a := range s.Pos {
			if on {
				s.Pos[a] = float64(rapid.IntRange(-4, 2*n[a]+4).Draw(t, "pos")) / 2
			} else {
				s.Pos[a] = rapid.Float64Range(-2, float64(n[a])+2).Draw(t, "pos")
			}
		}
		clear := true
		for _, o := range scene {
			d := 0.0
			for a := range s.Pos {
				d += (s.Pos[a] - o.Pos[a]) * (s.Pos[a] - o.Pos[a])
			}
			clear = clear && math.Sqrt(d) > radius(s)+radius(o)+3
		}
		if clear || overlap {
			scene = append(scene, s)
		}
	}
	return scene
}

// GenZoom draws one or two large solids of which a grid of n cells shows a
// part of the surface.
func GenZoom(t *rapid.T, n [3]int) (scene []Solid) {
	for range rapid.IntRange(1, 2).Draw(t, "solids") {
		size := math.Exp(rapid.Float64Range(math.Log(20), math.Log(3e5)).Draw(t, "size"))
		s := GenSolid(t, size/4, size)
		s.Pos = [3]float64{}
		tris := s.Tris()
		tri := tris[rapid.IntRange(0, len(tris)-1).Draw(t, "tri")]
		u, v := rapid.Float64Range(0, 1).Draw(t, "u"), rapid.Float64Range(0, 1).Draw(t, "v")
		if u+v > 1 {
			u, v = 1-u, 1-v
		}
		for i := range s.Pos {
			at := rapid.Float64Range(0, float64(n[i])).Draw(t, "at")
			s.Pos[i] = at - (tri[0][i] + u*(tri[1][i]-tri[0][i]) + v*(tri[2][i]-tri[0][i]))
		}
		scene = append(scene, s)
	}
	return scene
}
