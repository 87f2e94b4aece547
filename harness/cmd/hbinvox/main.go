// hbinvox holds the checks that run the binvox package in-process.
package main

import (
	"os"
	"path/filepath"
	"verif/harness/core"

	"github.com/gmlewis/stldice/v4/binvox"
)

func main() {
	core.Main(c01(), c02(), c03(), c04(), c05(), c06(), c08(), c09(), c10(), c26(), c29())
}

func toBinvox(g *core.Grid) *binvox.BinVOX {
	b := binvox.New(g.N[0], g.N[1], g.N[2], g.T[0], g.T[1], g.T[2], g.Scale, false)
	for p := range g.Cells {
		b.Add(p[0], p[1], p[2])
	}
	return b
}

func cellsOf(b *binvox.BinVOX) map[core.P]bool {
	out := map[core.P]bool{}
	for k := range b.WhiteVoxels {
		out[core.P{k.X, k.Y, k.Z}] = true
	}
	for k := range b.ColorVoxels {
		out[core.P{k.X, k.Y, k.Z}] = true
	}
	return out
}

// compare checks a read model against the oracle's view.
func compare(what string, want *core.Grid, got *binvox.BinVOX) error {
	if got == nil {
		return core.Failf("%s: no model", what)
	}
	if n := [3]int{got.NX, got.NY, got.NZ}; n != want.N {
		return core.Failf("%s: dimensions %v, want %v", what, n, want.N)
	}
	for i, v := range []float64{got.TX, got.TY, got.TZ} {
		if !core.SameFloat(v, want.T[i]) {
			return core.Failf("%s: translation[%d] = %v, want %v", what, i, v, want.T[i])
		}
	}
	if !core.SameFloat(got.Scale, want.Scale) {
		return core.Failf("%s: scale %v, want %v", what, got.Scale, want.Scale)
	}
	if d := core.DiffCells(want.Cells, cellsOf(got)); d != "" {
		return core.Failf("%s: cells: %s", what, d)
	}
	return nil
}

func writeFile(x *core.Ctx, name string, b []byte) string {
	p := filepath.Join(x.Dir(), name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		core.Infra("write: %v", err)
	}
	return p
}

func readFile(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		core.Infra("read: %v", err)
	}
	return b
}
