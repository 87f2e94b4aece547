package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/harness/core"
)

type brk struct {
	Kill bool `json:"kill"` // killed after At permille of the time of a whole run
	At   int  `json:"at"`   // otherwise no file can grow beyond At permille of the largest one
	Last bool `json:"last"` // or to the size of region file number At (by size)
}

type interruptCase struct {
	Dice stldiceCase `json:"dice"`
	Brk  []brk       `json:"brk"`
}

func genInterrupt(t *rapid.T) interruptCase {
	c := interruptCase{Dice: genStldice(t)}
	c.Dice.Redo, c.Dice.Twice = nil, false
	for k := rapid.IntRange(1, 3).Draw(t, "breaks"); k > 0; k-- {
		b := brk{Kill: rapid.IntRange(0, 2).Draw(t, "kill") == 0}
		if b.Kill {
			b.At = rapid.IntRange(50, 1300).Draw(t, "after")
		} else {
			b.At = rapid.IntRange(0, 1000).Draw(t, "limit")
			b.Last = rapid.Bool().Draw(t, "last")
		}
		c.Brk = append(c.Brk, b)
	}
	return c
}

// c30: a dicing that ended early is resumed.
func c30() *core.Prop {
	run := func(x *core.Ctx, c interruptCase) error {
		d := c.Dice
		args := options(dims, "-dim", fmt.Sprint(d.Dim), "-nx", fmt.Sprint(d.Div[0]), "-ny", fmt.Sprint(d.Div[1]), "-nz", fmt.Sprint(d.Div[2]))
		if d.MBB > 0 {
			var hi [3]float64
			for i := range hi {
				hi[i] = d.T[i] + d.Ext[i]*d.MMPV
			}
			args = append(args, "-mbb", d.mbbFlag(d.T, hi))
		}
		for _, dir := range []string{"whole", "broken"} {
			put(x, dir+"/sub/keep", nil)
			for i, m := range d.Models {
				tr := d.tris(m, d.MBB == 0 && d.Snap && i == 0)
				b := d.encode(m, tr)
				name := d.Dir + d.file(i, "cut.stl")
				put(x, dir+"/"+name, b)
				if dir == "whole" {
					args = append(args, name)
				}
			}
		}
		regions := func(dir string) map[string]string {
			out := map[string]string{}
			for k, v := range files(x) {
				if strings.HasPrefix(k, dir+"/") && strings.HasSuffix(k, ".binvox") {
					out[strings.TrimPrefix(k, dir+"/")] = v
				}
			}
			return out
		}
		start := time.Now()
		r := x.Tool(core.ToolOpt{Dir: filepath.Join(x.Dir(), "whole")}, "stldice", args...)
		took := time.Since(start)
		if r.Code != 0 {
			return core.Failf("stldice fails with status %d: %s", r.Code, core.Tail(r.Stderr))
		}
		whole := regions("whole")
		sizes := []int{0}
		for _, b := range whole {
			sizes = append(sizes, len(b))
		}
		sort.Ints(sizes)
		broken := filepath.Join(x.Dir(), "broken")
		for i, b := range c.Brk {
			limit := sizes[len(sizes)-1] * b.At / 1000
			if b.Last {
				limit = max(sizes[len(sizes)-1-b.At*b.At/1000*len(sizes)/1001]-1, 0)
			}
			what := fmt.Sprintf("run %d, with files limited to %d bytes", i+1, limit)
			done := false
			if b.Kill {
				cmd := exec.Command(filepath.Join(x.BinDir, "stldice"), args...)
				cmd.Dir = broken
				if err := cmd.Start(); err != nil {
					core.Infra("starting stldice: %v", err)
				}
				after := took * time.Duration(b.At) / 1000
				time.AfterFunc(after, func() { cmd.Process.Kill() })
				err := cmd.Wait()
				done = err == nil
				what = fmt.Sprintf("run %d, killed after %v", i+1, after)
				if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); err != nil && !(ok && ws.Signaled()) {
					return core.Failf("%s: stldice fails on its own: %v", what, err)
				}
			} else {
				r := x.Tool(core.ToolOpt{Dir: broken, FSize: int64(limit) + 1}, "stldice", args...)
				if r.Crashed {
					return core.Failf("%s: stldice crashes: %s", what, core.Tail(r.Stderr))
				}
				done = r.Code == 0
			}
			now := regions("broken")
			for _, k := range keys(now) {
				want, ok := whole[k]
				if !ok { // a temporary file
					delete(now, k)
					continue
				}
				if now[k] != want {
					return core.Failf("%s leaves %s with %d of %d bytes; the next run takes it for a finished region", what, k, len(now[k]), len(want))
				}
			}
			if done && len(now) != len(whole) {
				return core.Failf("%s reports success with %d of %d region files", what, len(now), len(whole))
			}
			switch {
			case done:
				x.Label("finished anyway")
			case len(now) > 0:
				x.Label("stopped after some regions")
			default:
				x.Label("stopped before the first region")
			}
			if !done && len(whole) > 1 {
				x.NonTrivial()
			}
		}
		last := x.Tool(core.ToolOpt{Dir: broken}, "stldice", args...)
		if last.Code != 0 {
			return core.Failf("the run that resumes fails with status %d: %s", last.Code, core.Tail(last.Stderr))
		}
		now := regions("broken")
		for _, k := range keys(whole) {
			if now[k] != whole[k] {
				return core.Failf("after resuming, %s has %d bytes that differ from the %d of an uninterrupted run", k, len(now[k]), len(whole[k]))
			}
		}
		if last.Stdout != r.Stdout {
			return core.Failf("after resuming, the script is %q, that of an uninterrupted run is %q", last.Stdout, r.Stdout)
		}
		os.RemoveAll(broken)
		return nil
	}
	crowd := func(t *rapid.T) interruptCase {
		c := genInterrupt(t)
		genCrowd(t, &c.Dice, []int{4, 9, 17, 33, 65})
		return c
	}
	return &core.Prop{
		ID:          "C30",
		Rule:        "dicings as in C18 (with up to two, in `crowd` up to 65 cuts), stopped up to three times by a file size limit anywhere within the largest region file or by a kill at any time of the run, looked at after every stop, then resumed; non-trivial: a run was stopped early and the whole has at least two region files",
		Assumptions: []string{"a run is stopped by SIGKILL or by refused writes; what the operating system has accepted stays (no power loss)", "a stopped run may leave temporary files under other names"},
		Tools:       []string{"./cmd/stldice"},
		Arms:        []*core.Arm{core.NewArm("resume", 1350, 15000, genInterrupt, run), core.NewArm("crowd", 8, 200, crowd, run)},
	}
}
