package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	"verif/harness/core"
)

type boxCase struct {
	Lo     [3]string `json:"lo"` // coordinates as spelled
	Hi     [3]string `json:"hi"`
	Spell  int       `json:"spell"`
	Factor int       `json:"factor"`
	Sub    [3]int    `json:"sub"` // 0: default, 1: on, 2: off
	Files  []string  `json:"files"`
}

func genCoord(t *rapid.T, lo float64) string {
	var v float64
	switch rapid.IntRange(0, 3).Draw(t, "k") {
	case 0:
		v = lo + float64(rapid.IntRange(1, 160).Draw(t, "v"))
	case 1:
		v = lo + float64(rapid.IntRange(1, 4000).Draw(t, "v"))/10
	case 2:
		v = lo + rapid.Float64Range(0.001, 1000).Draw(t, "v")
	default:
		v = lo + math.Pow(10, float64(rapid.IntRange(-3, 5).Draw(t, "v")))
	}
	return rapid.SampledFrom([]func(float64) string{
		func(f float64) string { return fmt.Sprintf("%v", f) },
		func(f float64) string { return fmt.Sprintf("%.3f", f) },
		func(f float64) string { return fmt.Sprintf("%e", f) },
		func(f float64) string { return fmt.Sprintf("%+v", f) },
	}).Draw(t, "fmt")(v)
}

func genBox(t *rapid.T) boxCase {
	c := boxCase{Spell: rapid.IntRange(0, 4).Draw(t, "spell"), Factor: rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "factor")}
	if c.Factor > 5 && rapid.IntRange(0, 3).Draw(t, "fewer") > 0 {
		c.Factor -= 3
	}
	for i := range c.Lo {
		c.Lo[i] = genCoord(t, -120)
		f, _ := strconv.ParseFloat(c.Lo[i], 64)
		c.Hi[i] = genCoord(t, f)
		if g, _ := strconv.ParseFloat(c.Hi[i], 64); !(g > f) { // lost by the spelling
			c.Hi[i] = fmt.Sprint(f + 1)
		}
		c.Sub[i] = rapid.IntRange(0, 2).Draw(t, "sub")
	}
	pool := []string{"base.stl", "all-cuts.stl", "c3.stl", "dir/x.stl", "noext", "v1.stl.stl", "my part.stl", "it's 50%$x.stl", "a&b;(c)", "~d/#e*?.stl", `q"\f`}
	c.Files = rapid.Permutation(pool).Draw(t, "files")[:rapid.IntRange(1, 4).Draw(t, "n")]
	for i := range c.Files {
		if rapid.IntRange(0, 2).Draw(t, "named") == 0 { // all different, and no number at the end
			c.Files[i] = rapid.SampledFrom([]string{"", "", "d/", "~/", "a b/"}).Draw(t, "dir") + core.GenName(t, "") + "wxyz"[i:i+1] + rapid.SampledFrom([]string{"", ".stl"}).Draw(t, "ext")
		}
	}
	if rapid.IntRange(0, 24).Draw(t, "crowd") == 0 { // many files
		for k := rapid.SampledFrom([]int{5, 9, 17, 65, 101, 257}).Draw(t, "more"); k > 0; k-- {
			c.Files = append(c.Files, fmt.Sprintf("part%dx%s", k, rapid.SampledFrom([]string{"", ".stl"}).Draw(t, "ext")))
		}
	}
	if rapid.IntRange(0, 19).Draw(t, "fine") == 0 { // one axis in many pieces
		c.Factor, c.Files = rapid.SampledFrom([]int{8, 9, 10, 11, 13, 16, 17, 33, 64, 100, 130}).Draw(t, "pieces"), c.Files[:1]
		c.Sub = [3]int{2, 2, 2}
		c.Sub[rapid.IntRange(0, 2).Draw(t, "axis")] = 1
	}
	return c
}

func c25() *core.Prop {
	// What the generated script is run against: binvox names its output after
	// the input and numbers it when the name is taken.
	const stubs = `exec 7>log
declare -A made
binvox() {
  local f="${@: -1}"; f="${f%.stl}"
  local o="$f.binvox"
  [ -n "${made[$f]}" ] && o="${f}_${made[$f]}.binvox"
  made[$f]=$((${made[$f]:-0}+1))
  printf -v l '\x1f%s' "$@"; printf '%s\n' "binvox"$'\x1f'"$o$l" >&7
}
voxcut() { printf -v l '\x1f%s' "$@"; printf '%s\n' "voxcut"$'\x1f'"$l" >&7; }
`
	run := func(x *core.Ctx, c boxCase) error {
		var lo, hi [3]float64
		for i := range lo {
			lo[i], _ = strconv.ParseFloat(c.Lo[i], 64)
			hi[i], _ = strconv.ParseFloat(c.Hi[i], 64)
		}
		f := []string{"(%s,%s,%s)-(%s,%s,%s)", "[%s,%s,%s]-[%s,%s,%s]", " ( %s , %s,\t%s ) - ( %s, %s , %s ) ", "(%s,%s,%s) - [%s,%s,%s]", "%s,%s,%s - %s,%s,%s"}[c.Spell]
		args := []string{"-mbb", fmt.Sprintf(f, c.Lo[0], c.Lo[1], c.Lo[2], c.Hi[0], c.Hi[1], c.Hi[2])}
		factor := 8
		if c.Factor > 0 {
			factor = c.Factor
			args = append(args, "-factor", fmt.Sprint(factor))
		}
		div := [3]int{factor, factor, 1}
		for i, n := range []string{"subx", "suby", "subz"} {
			switch c.Sub[i] {
			case 1:
				div[i] = factor
				args = append(args, "-"+n)
			case 2:
				div[i] = 1
				args = append(args, "-"+n+"=false")
			}
		}
		args = append(args, c.Files...)
		what := fmt.Sprintf("binvox-dice %q", args)
		for _, f := range c.Files {
			if f != word(f) {
				x.Label("names to quote")
			}
		}
		r := x.Tool(core.ToolOpt{}, "binvox-dice", args...)
		if r.Crashed || r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		put(x, "script.sh", []byte(stubs+strings.TrimPrefix(r.Stdout, "#!/bin/bash -x\n")))
		if s := x.Tool(core.ToolOpt{}, "/bin/bash", "script.sh"); s.Code != 0 || strings.Contains(s.Stderr, "not found") {
			return core.Failf("%s: the script does not run: %s", what, core.Tail(s.Stderr))
		}
		total := div[0] * div[1] * div[2]
		if total > 1 {
			x.NonTrivial()
		}
		x.Label("%d files", len(c.Files))
		lines := strings.Split(strings.TrimSuffix(string(get(x, "log")), "\n"), "\n")
		if len(lines) != total*(len(c.Files)+1) {
			return core.Failf("%s: %d commands, want one per file and a cut for each of %d boxes", what, len(lines), total)
		}
		outs := map[string]bool{}
		type box [6]float64
		boxes := map[box]bool{}
		for k := 0; k < total; k++ {
			var made []string
			var bb box
			group := lines[k*(len(c.Files)+1) : (k+1)*(len(c.Files)+1)]
			for i, f := range c.Files {
				a := strings.Split(group[i], "\x1f")
				if a[0] != "binvox" || a[len(a)-1] != f {
					return core.Failf("%s: box %d: command %q, want a voxelization of %s", what, k, group[i], f)
				}
				made = append(made, a[1])
				p := -1
				for j := range a {
					if a[j] == "-bb" {
						p = j
					}
				}
				if p < 0 || p+7 >= len(a) {
					return core.Failf("%s: box %d: no box in %q", what, k, group[i])
				}
				var b box
				for j := range b {
					v, err := strconv.ParseFloat(a[p+1+j], 64)
					if err != nil {
						return core.Failf("%s: box %d: %v", what, k, err)
					}
					b[j] = v
				}
				if i > 0 && b != bb {
					return core.Failf("%s: box %d: files are voxelized in %v and %v", what, k, bb, b)
				}
				bb = b
			}
			a := strings.Split(group[len(c.Files)], "\x1f")
			if a[0] != "voxcut" {
				return core.Failf("%s: box %d: command %q, want a cut", what, k, group[len(c.Files)])
			}
			out := ""
			var ins []string
			for j := 2; j < len(a); j++ {
				if a[j] == "-ostl" && j+1 < len(a) {
					out = a[j+1]
					j++
					continue
				}
				if strings.HasPrefix(a[j], "-") {
					return core.Failf("%s: box %d: unexpected option in %q", what, k, a)
				}
				ins = append(ins, a[j])
			}
			if out == "" || outs[out] {
				return core.Failf("%s: box %d: output %q is missing or used before", what, k, out)
			}
			outs[out] = true
			if strings.Join(ins, "\n") != strings.Join(made, "\n") {
				return core.Failf("%s: box %d: the cut takes %v, the voxelizer makes %v", what, k, ins, made)
			}
			if boxes[bb] {
				return core.Failf("%s: box %v occurs twice", what, bb)
			}
			boxes[bb] = true
		}
		// Each axis has div intervals that follow each other; the boxes are all combinations.
		for i := range div {
			next := map[float64]float64{}
			for b := range boxes {
				if o, ok := next[b[i]]; ok && o != b[3+i] {
					return core.Failf("%s: axis %d: intervals %v-%v and %v-%v overlap", what, i, b[i], o, b[i], b[3+i])
				}
				next[b[i]] = b[3+i]
			}
			if len(next) != div[i] {
				return core.Failf("%s: axis %d has %d intervals, want %d", what, i, len(next), div[i])
			}
			eps := 1e-12 * (math.Abs(lo[i]) + math.Abs(hi[i]))
			size := (hi[i] - lo[i]) / float64(div[i])
			pos := math.Inf(1)
			for a := range next {
				pos = min(pos, a)
			}
			if math.Abs(pos-lo[i]) > eps {
				return core.Failf("%s: axis %d starts at %v, want %v", what, i, pos, lo[i])
			}
			for k := 0; k < div[i]; k++ {
				q, ok := next[pos]
				if !ok {
					return core.Failf("%s: axis %d: no interval starts where one ends, at %v", what, i, pos)
				}
				if math.Abs(q-pos-size) > eps {
					return core.Failf("%s: axis %d: interval %v-%v is not one of %d equal parts", what, i, pos, q, div[i])
				}
				pos = q
			}
			if math.Abs(pos-hi[i]) > eps {
				return core.Failf("%s: axis %d ends at %v, want %v", what, i, pos, hi[i])
			}
		}
		return nil
	}
	names := func(bool) (out []boxCase) {
		for _, name := range core.Names() {
			out = append(out, boxCase{Lo: [3]string{"0", "0", "0"}, Hi: [3]string{"4", "4", "4"}, Factor: 2, Files: []string{name + "x.stl", "y" + name}})
		}
		return out
	}
	return &core.Prop{
		ID:          "C25",
		Rule:        "boxes with coordinates in several spellings, default and other factors, every choice of divided axes, one to four files (some up to 261); the script is run with stand-ins for both programs that record their arguments and name outputs as binvox does; file names and prefixes of letters, blanks, shell, pattern, format and markup characters, each of them at the start of a name and inside; non-trivial: more than one sub-box",
		Assumptions: []string{"binvox names its output after the input and numbers it (_1, _2, ...) when the name is taken", "outermost boundaries may differ from the given ones by float64 rounding (1e-12 relative); neighbours share boundaries exactly", "the lower corner is below the upper one; file names contain no line breaks"},
		Tools:       []string{"./cmd/binvox-dice"},
		Arms:        []*core.Arm{core.NewArm("tool", 1500, 20000, genBox, run), core.Fixed(core.NewArm("names", 0, 0, nil, run), names)},
	}
}
