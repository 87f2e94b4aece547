// Package core is the property-based testing driver shared by all checks:
// it generates cases with rapid, runs them in sharded child processes (so that
// crashes, log.Fatal and hangs of the code under test are observed rather than
// suffered), shrinks failures, writes replay files and evidence.
package core

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Ctx is handed to every case execution.
type Ctx struct {
	BinDir     string
	Tier       string
	nontrivial bool
	labels     []string
	dir        string
	scratch    string
	cleanups   []func()
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (x *Ctx) NonTrivial() { x.nontrivial = true }

// Label counts the case under a label in the evidence.
func (x *Ctx) Label(format string, a ...any) { x.labels = append(x.labels, fmt.Sprintf(format, a...)) }

// Dir returns a scratch directory that is removed after the case.
func (x *Ctx) Dir() string {
	if x.dir == "" {
		d, err := os.MkdirTemp(x.scratch, "case")
		if err != nil {
			Infra("scratch: %v", err)
		}
		x.dir = d
	}
	return x.dir
}

// Cleanup registers f to run after the case.
func (x *Ctx) Cleanup(f func()) { x.cleanups = append(x.cleanups, f) }

func (x *Ctx) finish() {
	for i := len(x.cleanups) - 1; i >= 0; i-- {
		x.cleanups[i]()
	}
	if x.dir != "" {
		os.RemoveAll(x.dir)
	}
}

// Failf builds the error that reports a violated property.
func Failf(format string, a ...any) error { return fmt.Errorf(format, a...) }

// infraError is a failure of the check itself, never a violation.
type infraError struct{ msg string }

// Infra aborts the run with an error of the check (exit code 2).
func Infra(format string, a ...any) { panic(infraError{fmt.Sprintf(format, a...)}) }

// Arm is one executable form of a property.
type Arm struct {
	Name       string
	Quick      int
	Thorough   int
	Exhaustive bool
	fixed      func(thorough bool) []any
	gen        func(*rapid.T) any
	decode     func([]byte) (any, error)
	run        func(*Ctx, any) error
	minimize   func(c any, fails func(any) bool) any
}

// quickScale multiplies the random cases of every arm in the quick tier: a case that shows a defect
// one time in a thousand is then met in most runs.
const quickScale = 2

// NewArm builds an arm from a generator and an execution function over
// JSON-serialisable cases.
func NewArm[C any](name string, quick, thorough int, gen func(*rapid.T) C, run func(*Ctx, C) error) *Arm {
	a := &Arm{Name: name, Quick: quick, Thorough: thorough}
	if gen != nil {
		a.gen = func(t *rapid.T) any { return gen(t) }
	}
	a.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	a.run = func(x *Ctx, c any) error { return run(x, c.(C)) }
	return a
}

// Fixed adds cases that are always run, spread over the shards.
func Fixed[C any](a *Arm, f func(thorough bool) []C) *Arm {
	a.fixed = func(th bool) []any {
		var out []any
		for _, c := range f(th) {
			out = append(out, c)
		}
		return out
	}
	return a
}

// Prop is one property with its arms.
type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Tools       []string // packages of /repo to build as executables
	Arms        []*Arm
	Shards      int
	CaseLimit   time.Duration // a case running longer than this hangs
}

type armStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"non_trivial"`
	Labels      map[string]int `json:"labels,omitempty"`
	Truncated   bool           `json:"truncated,omitempty"`
}

type failure struct {
	Property string          `json:"property"`
	Arm      string          `json:"arm"`
	Case     json.RawMessage `json:"case"`
	Detail   string          `json:"detail"`
	History  *history        `json:"history,omitempty"` // the cases before it are needed
}

// history says how to draw the cases of a child again.
type history struct {
	Seed   int64  `json:"seed"`
	Tier   string `json:"tier"`
	Child  int    `json:"child"`
	Shards int    `json:"shards"`
	Only   string `json:"only,omitempty"`
	Cases  int    `json:"cases,omitempty"`
}

type childResult struct {
	Stats   map[string]*armStats `json:"stats"`
	Hashes  []string             `json:"hashes"`
	Samples []json.RawMessage    `json:"samples"`
	Failure *failure             `json:"failure,omitempty"`
	Infra   string               `json:"infra,omitempty"`
}

type current struct {
	Seq   int             `json:"seq"`
	Arm   string          `json:"arm"`
	Chunk int             `json:"chunk"` // -1: a fixed case
	Idx   int             `json:"idx"`   // number within the chunk
	Case  json.RawMessage `json:"case"`
}

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "", "quick or thorough")
	fSeed    = flag.Int64("seed", 0, "seed")
	fReplay  = flag.String("replay", "", "replay file")
	fChild   = flag.Int("child", -1, "internal: shard number")
	fShards  = flag.Int("shards", 0, "number of shards")
	fState   = flag.String("state", "", "internal: state dir")
	fOnly    = flag.String("arm", "", "run only this arm")
	fOut     = flag.String("evidence", "/verif/evidence", "evidence directory")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerbose = flag.Bool("v", false, "print details")
	fCases   = flag.Int("cases", 0, "override the number of cases per arm")
	fIsolate = flag.String("isolate", "", "internal: arm/chunk/index of a case that ended the process, to be shrunk out of process")
)

// Main runs the property selected on the command line.
func Main(props ...*Prop) {
	testing.Init() // rapid consults testing.Short
	flag.Parse()
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	if *fSeed == 0 {
		if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			*fSeed = s
		} else {
			*fSeed = 1
		}
	}
	for _, p := range props {
		if p.ID == *fProp {
			if *fChild >= 0 {
				os.Exit(child(p))
			}
			os.Exit(parent(p))
		}
	}
	fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
	os.Exit(2)
}

func (p *Prop) shards() int {
	if *fShards > 0 {
		return *fShards
	}
	if p.Shards > 0 {
		return p.Shards
	}
	n := runtime.NumCPU() - 1
	if n > 7 {
		n = 7
	}
	if n < 1 {
		n = 1
	}
	return n
}

func (p *Prop) arm(name string) *Arm {
	for _, a := range p.Arms {
		if a.Name == name {
			return a
		}
	}
	return nil
}

// ---------------------------------------------------------------- child

type tbAdaptor struct {
	failed bool
	msgs   []string
}

func (t *tbAdaptor) Helper()                   {}
func (t *tbAdaptor) Name() string              { return "verif" }
func (t *tbAdaptor) Logf(f string, a ...any)   { t.msgs = append(t.msgs, fmt.Sprintf(f, a...)) }
func (t *tbAdaptor) Log(a ...any)              { t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tbAdaptor) Skipf(f string, a ...any)  { runtime.Goexit() }
func (t *tbAdaptor) Skip(a ...any)             { runtime.Goexit() }
func (t *tbAdaptor) SkipNow()                  { runtime.Goexit() }
func (t *tbAdaptor) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbAdaptor) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbAdaptor) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tbAdaptor) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tbAdaptor) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tbAdaptor) Fail()                     { t.failed = true }
func (t *tbAdaptor) Failed() bool              { return t.failed }

type childState struct {
	p       *Prop
	res     *childResult
	seen    map[string]bool
	curFile string
	seq     int
	last    *failure
	failed  time.Time
	infra   string
	counts  map[string]int
	chunk   int // of the case being run, -1 for fixed ones
	idx     int
}

func (s *childState) exec(a *Arm, c any) (err error) {
	raw, jerr := json.Marshal(c)
	if jerr != nil {
		s.infra = "marshal: " + jerr.Error()
		return jerr
	}
	s.seq++
	if s.curFile != "" {
		b, _ := json.Marshal(current{s.seq, a.Name, s.chunk, s.idx, raw})
		tmp := s.curFile + ".tmp"
		if werr := os.WriteFile(tmp, b, 0o644); werr == nil {
			os.Rename(tmp, s.curFile)
		}
	}
	if s.last != nil && time.Since(s.failed) > 20*time.Second {
		return nil // enough shrinking, of which rapid does not stop the single steps
	}
	x := &Ctx{BinDir: filepath.Join(*fState, "bin"), Tier: *fTier, scratch: *fState}
	if h := sha256.Sum256(raw); h[0]%8 == 0 && s.chunk >= 0 {
		if d := otherDisk(*fState); d != "" {
			x.scratch = d
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ie, ok := r.(infraError); ok {
					s.infra = ie.msg
					err = fmt.Errorf("infra: %s", ie.msg)
					return
				}
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		err = a.run(x, c)
	}()
	x.finish()
	st := s.res.Stats[a.Name]
	if s.last == nil || err == nil { // do not count shrinking runs
		if s.last == nil {
			st.Evaluations++
			for _, l := range x.labels {
				st.Labels[l]++
			}
			if x.nontrivial {
				st.NonTrivial++
				h := sha256.Sum256(append([]byte(a.Name+"\x00"), raw...))
				k := hex.EncodeToString(h[:8])
				if !s.seen[k] {
					s.seen[k] = true
					s.res.Hashes = append(s.res.Hashes, k)
					if len(raw) < 1500 && s.counts[a.Name] < 2 {
						s.counts[a.Name]++
						b, _ := json.Marshal(map[string]json.RawMessage{"arm": json.RawMessage(strconv.Quote(a.Name)), "case": raw})
						s.res.Samples = append(s.res.Samples, b)
					}
				}
			}
		}
	}
	if err != nil && s.infra == "" {
		if s.last == nil {
			s.failed = time.Now()
		}
		s.last = &failure{Property: s.p.ID, Arm: a.Name, Case: raw, Detail: err.Error()}
		if len(s.last.Detail) > 6000 {
			s.last.Detail = s.last.Detail[:6000]
		}
	}
	return err
}

// Some cases have their scratch directory on another file system than the
// directory for temporary files, where there is one with space.
func otherDiskName(state string) string {
	var a, b syscall.Statfs_t
	var s, o syscall.Stat_t
	const shm = "/dev/shm"
	if syscall.Stat(state, &s) != nil || syscall.Stat(shm, &o) != nil || s.Dev == o.Dev ||
		syscall.Statfs(state, &a) != nil || syscall.Statfs(shm, &b) != nil || b.Bavail*uint64(b.Bsize) < 4<<30 {
		return ""
	}
	return filepath.Join(shm, filepath.Base(state))
}

func otherDisk(state string) string {
	d := otherDiskName(state)
	if i, err := os.Stat(d); err != nil || !i.IsDir() {
		return ""
	}
	return d
}

func seedFor(id, arm string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", *fSeed, id, arm, shard)
	v := h.Sum64()
	if v == 0 {
		v = 1
	}
	return v
}

func child(p *Prop) int {
	go watchMemory()
	if isReplayChild {
		if os.Getenv("VERIF_LOG") == "" {
			log.SetOutput(io.Discard)
		}
		return replayChild(p)
	}
	if os.Getenv("VERIF_LOG") == "" {
		log.SetOutput(io.Discard)
	}
	debug.SetGCPercent(200)
	s := &childState{p: p, res: &childResult{Stats: map[string]*armStats{}}, seen: map[string]bool{}, counts: map[string]int{}}
	s.curFile = filepath.Join(*fState, fmt.Sprintf("current-%d.json", *fChild))
	start := time.Now()
	limit := 200 * time.Second
	if *fTier == "thorough" {
		limit = 4 * time.Hour
	}
	shards := p.shards()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "12s")
	save := func() {
		b, _ := json.Marshal(s.res)
		os.WriteFile(filepath.Join(*fState, fmt.Sprintf("result-%d.json", *fChild)), b, 0o644)
	}
	if *fIsolate != "" {
		isolate(p, s)
		save()
		return 0
	}
	s.chunk = -1
	finish := func() int {
		s.res.Failure = s.last
		s.res.Infra = s.infra
		save()
		return 0
	}
	for _, a := range p.Arms {
		if *fOnly != "" && a.Name != *fOnly {
			continue
		}
		s.res.Stats[a.Name] = &armStats{Labels: map[string]int{}}
		if a.fixed != nil {
			for i, c := range a.fixed(*fTier == "thorough") {
				if i%shards != *fChild {
					continue
				}
				if err := s.exec(a, c); err != nil {
					return finish()
				}
			}
		}
	}
	for _, a := range p.Arms {
		if *fOnly != "" && a.Name != *fOnly {
			continue
		}
		n := a.Quick * quickScale
		if *fTier == "thorough" {
			n = a.Thorough
		}
		if *fCases > 0 {
			n = *fCases
		}
		if a.gen == nil || n == 0 {
			continue
		}
		per := n / shards
		if *fChild < n%shards {
			per++
		}
		// Run in chunks, so that the soft deadline can end the arm.
		for chunk := 0; per > 0; chunk++ {
			if time.Since(start) > limit {
				s.res.Stats[a.Name].Truncated = true
				break
			}
			k := per
			if k > 50 {
				k = 50
			}
			per -= k
			flag.Set("rapid.checks", strconv.Itoa(k))
			flag.Set("rapid.seed", strconv.FormatUint(seedFor(p.ID, a.Name, *fChild*100000+chunk), 10))
			s.chunk, s.idx = chunk, 0
			tb := &tbAdaptor{}
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() {
					if r := recover(); r != nil && s.last == nil && s.infra == "" {
						s.infra = fmt.Sprintf("generator panic: %v\n%s", r, debug.Stack())
					}
				}()
				rapid.Check(tb, func(t *rapid.T) {
					c := a.gen(t)
					if s.infra != "" {
						return
					}
					err := s.exec(a, c)
					s.idx++
					if err != nil {
						t.Fatalf("property violated")
					}
				})
			}()
			<-done
			if s.last != nil || s.infra != "" {
				return finish()
			}
			if tb.failed {
				s.infra = "rapid: " + strings.Join(tb.msgs, "\n")
				return finish()
			}
		}
	}
	return finish()
}

// isolate draws the cases of one chunk again up to the one that ended the
// process, and lets rapid shrink that one, with every run in its own process.
func isolate(p *Prop, s *childState) {
	part := strings.Split(*fIsolate, "/")
	if len(part) != 3 {
		return
	}
	a := p.arm(part[0])
	chunk, _ := strconv.Atoi(part[1])
	first, _ := strconv.Atoi(part[2])
	flag.Set("rapid.shrinktime", "20s")
	flag.Set("rapid.checks", strconv.Itoa(first+1))
	flag.Set("rapid.seed", strconv.FormatUint(seedFor(p.ID, a.Name, *fChild*100000+chunk), 10))
	n := 0
	start := time.Now()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { recover() }()
		rapid.Check(&tbAdaptor{}, func(t *rapid.T) {
			c := a.gen(t)
			n++
			if n <= first || time.Since(start) > 60*time.Second {
				return
			}
			raw, err := json.Marshal(c)
			if err != nil {
				return
			}
			f := &failure{Property: p.ID, Arm: a.Name, Case: raw}
			path := filepath.Join(*fState, fmt.Sprintf("isolated-%d.json", *fChild))
			b, _ := json.Marshal(f)
			os.WriteFile(path, b, 0o644)
			args := []string{"-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-state", *fState,
				"-child", strconv.Itoa(2000 + *fChild), "-replay", path}
			// A crash may depend on the schedule.
			for try := 0; try < 8; try++ {
				kind, out := spawnReplay(p, *fState, *fChild, args, 20*time.Second, nil)
				if kind != endCrash {
					continue
				}
				f.Detail = out
				if len(out) > 5000 {
					f.Detail = out[:3500] + "\n...\n" + out[len(out)-1500:]
				}
				s.res.Failure = f
				t.Fatalf("the process ended")
			}
		})
	}()
	<-done
}

// ---------------------------------------------------------------- parent

func parent(p *Prop) int {
	start := time.Now()
	state, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(state)
	if d := otherDiskName(state); d != "" {
		os.Mkdir(d, 0o755)
		defer os.RemoveAll(d)
	}
	os.Mkdir(filepath.Join(state, "bin"), 0o755)
	if len(p.Tools) > 0 {
		args := []string{"build", "-o", filepath.Join(state, "bin") + "/"}
		args = append(args, p.Tools...)
		cmd := exec.Command("go", args...)
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false") // never rewrite go.mod
		cmd.Dir = *fRepo
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building tools: %v\n%s\n", err, out)
			return 2
		}
	}
	if *fReplay != "" {
		return replay(p, state)
	}
	shards := p.shards()
	limit := p.CaseLimit
	if limit == 0 {
		limit = 120 * time.Second
	}
	results := make([]*childResult, shards)
	var mu sync.Mutex
	var fail *failure
	var infra string
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res, f, inf := runChild(p, state, i, limit, stop)
			mu.Lock()
			defer mu.Unlock()
			results[i] = res
			if f != nil && fail == nil {
				fail = f
			}
			if inf != "" && infra == "" {
				infra = inf
			}
			if f != nil || inf != "" {
				once.Do(func() { close(stop) })
			}
		}(i)
	}
	wg.Wait()

	// Merge.
	stats := map[string]*armStats{}
	distinct := map[string]bool{}
	var samples []json.RawMessage
	total := 0
	perArm := map[string]int{}
	for _, r := range results {
		if r == nil {
			continue
		}
		for n, st := range r.Stats {
			m := stats[n]
			if m == nil {
				m = &armStats{Labels: map[string]int{}}
				stats[n] = m
			}
			m.Evaluations += st.Evaluations
			m.NonTrivial += st.NonTrivial
			m.Truncated = m.Truncated || st.Truncated
			for l, c := range st.Labels {
				m.Labels[l] += c
			}
			total += st.Evaluations
		}
		for _, h := range r.Hashes {
			distinct[h] = true
		}
		for _, s := range r.Samples {
			var a struct{ Arm string }
			json.Unmarshal(s, &a)
			if perArm[a.Arm] < 2 {
				perArm[a.Arm]++
				samples = append(samples, s)
			}
		}
	}
	ids := make([]string, 0)
	for n := range stats {
		ids = append(ids, n)
	}
	sort.Strings(ids)
	if infra != "" && fail == nil {
		fmt.Fprintf(os.Stderr, "ERROR property=%s %s\n", p.ID, infra)
		return 2
	}
	if samples == nil {
		samples = []json.RawMessage{}
		if fail != nil {
			samples = append(samples, fail.Case)
		}
	}
	nviol := 0
	if fail != nil {
		nviol = 1
	}
	exhaustive := []string{}
	for _, a := range p.Arms {
		if a.Exhaustive {
			exhaustive = append(exhaustive, a.Name)
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "arms": stats, "exhaustive_arms": exhaustive, "shards": shards,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  nviol,
	}
	os.MkdirAll(*fOut, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fOut, p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, n := range ids {
		fmt.Printf("%s %-24s cases=%d nontrivial=%d", p.ID, n, stats[n].Evaluations, stats[n].NonTrivial)
		if *fVerbose {
			fmt.Printf(" labels=%v", stats[n].Labels)
		}
		if stats[n].Truncated {
			fmt.Printf(" (truncated by time)")
		}
		fmt.Println()
	}
	fmt.Printf("%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, total, len(distinct), time.Since(start).Seconds())
	if fail != nil {
		path := writeReplay(p, fail)
		fmt.Printf("arm=%s detail: %s\n", fail.Arm, fail.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	return 0
}

func writeReplay(p *Prop, f *failure) string {
	dir := filepath.Join(*fOut, "replays")
	os.MkdirAll(dir, 0o755)
	h := sha256.Sum256(f.Case)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", p.ID, f.Arm, hex.EncodeToString(h[:4])))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

type endKind int

const (
	endOK endKind = iota
	endCrash
	endHang
	endStopped
	endKilled
)

// spawn runs one child to its end.
func spawn(p *Prop, state string, i int, args []string, limit time.Duration, stop <-chan struct{}) (endKind, string) {
	errPath := filepath.Join(state, fmt.Sprintf("stderr-%d", i))
	ef, err := os.Create(errPath)
	if err != nil {
		return endKilled, err.Error()
	}
	defer ef.Close()
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return endKilled, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	cur := filepath.Join(state, fmt.Sprintf("current-%d.json", i))
	lastChange := time.Now()
	var lastMod time.Time
	kill := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // stray tools
			b, _ := os.ReadFile(errPath)
			if len(b) > 5000 {
				b = append(b[:3500:3500], b[len(b)-1500:]...)
			}
			if err == nil {
				return endOK, string(b)
			}
			if ee, ok := err.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					return endKilled, "child killed"
				}
			}
			return endCrash, err.Error() + "\n" + string(b)
		case <-stop:
			kill()
			return endStopped, ""
		case <-tick.C:
			if st, err := os.Stat(cur); err == nil && st.ModTime() != lastMod {
				lastMod = st.ModTime()
				lastChange = time.Now()
			}
			if time.Since(lastChange) > limit {
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(5 * time.Second):
				}
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				b, _ := os.ReadFile(errPath)
				return endHang, stacks(string(b))
			}
		}
	}
}

func childArgs(p *Prop, state string, i int) []string {
	return []string{"-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatInt(*fSeed, 10), "-child", strconv.Itoa(i),
		"-shards", strconv.Itoa(p.shards()), "-state", state, "-arm", *fOnly, "-cases", strconv.Itoa(*fCases)}
}

func runChild(p *Prop, state string, i int, limit time.Duration, stop <-chan struct{}) (*childResult, *failure, string) {
	var hung *current // where the first attempt did not go on
	for attempt := 0; ; attempt++ {
		kind, out := spawn(p, state, i, childArgs(p, state, i), limit, stop)
		switch kind {
		case endStopped:
			return nil, nil, ""
		case endKilled:
			if attempt < 1 {
				continue
			}
			return nil, nil, "child was killed: " + out
		case endOK:
			b, err := os.ReadFile(filepath.Join(state, fmt.Sprintf("result-%d.json", i)))
			if err != nil {
				return nil, nil, "no result: " + err.Error() + "\n" + out
			}
			res := &childResult{}
			if err := json.Unmarshal(b, res); err != nil {
				return nil, nil, "bad result: " + err.Error()
			}
			return res, res.Failure, res.Infra
		default:
			b, err := os.ReadFile(filepath.Join(state, fmt.Sprintf("current-%d.json", i)))
			var cur current
			if err != nil || json.Unmarshal(b, &cur) != nil || cur.Arm == "" {
				return nil, nil, "child failed before its first case: " + out
			}
			what := "the process running the code crashed"
			if kind == endHang {
				what = fmt.Sprintf("the code did not finish within %v", limit)
				// Confirm alone before believing it.
				f := &failure{Property: p.ID, Arm: cur.Arm, Case: cur.Case}
				if ok := confirm(p, state, 1000+i, f, limit, stop); !ok {
					if attempt < 1 {
						hung = &cur
						continue
					}
					if hung != nil && hung.Seq == cur.Seq && hung.Arm == cur.Arm && bytes.Equal(hung.Case, cur.Case) {
						f.Detail = what + " after the cases before it, twice: " + out
						f.History = &history{*fSeed, *fTier, i, p.shards(), *fOnly, *fCases}
						return nil, f, ""
					}
					return nil, nil, "a case exceeded the time limit once but not when repeated"
				}
			}
			f := &failure{Property: p.ID, Arm: cur.Arm, Case: cur.Case, Detail: what + ": " + out}
			if kind == endCrash && cur.Chunk >= 0 {
				// Shrink: draw the same cases again, run each in a process of its own.
				args := append(childArgs(p, state, i), "-isolate", fmt.Sprintf("%s/%d/%d", cur.Arm, cur.Chunk, cur.Idx))
				if k, _ := spawn(p, state, i, args, 90*time.Second, stop); k == endOK {
					res := &childResult{}
					if b, err := os.ReadFile(filepath.Join(state, fmt.Sprintf("result-%d.json", i))); err == nil &&
						json.Unmarshal(b, res) == nil && res.Failure != nil {
						f = res.Failure
						f.Detail = what + ": " + f.Detail
					}
				}
			}
			return nil, f, ""
		}
	}
}

// confirm reruns one case alone; true if it fails again.
func confirm(p *Prop, state string, i int, f *failure, limit time.Duration, stop <-chan struct{}) bool {
	path := filepath.Join(state, fmt.Sprintf("confirm-%d.json", i))
	b, _ := json.Marshal(f)
	os.WriteFile(path, b, 0o644)
	cmdArgs := []string{"-prop", p.ID, "-tier", *fTier, "-state", state, "-child", strconv.Itoa(i), "-replay", path}
	kind, _ := spawnReplay(p, state, i, cmdArgs, limit, stop)
	return kind == endHang || kind == endCrash
}

func spawnReplay(p *Prop, state string, i int, args []string, limit time.Duration, stop <-chan struct{}) (endKind, string) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "VERIF_REPLAY_CHILD=1")
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return endKilled, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		if err == nil {
			return endOK, sb.String()
		}
		return endCrash, err.Error() + "\n" + sb.String()
	case <-stop:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return endStopped, ""
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return endHang, "timeout"
	}
}

func replay(p *Prop, state string) int {
	limit := p.CaseLimit
	if limit == 0 {
		limit = 120 * time.Second
	}
	abs, _ := filepath.Abs(*fReplay)
	var h failure
	if b, err := os.ReadFile(abs); err == nil && json.Unmarshal(b, &h) == nil && h.History != nil {
		*fSeed, *fTier, *fOnly, *fCases = h.History.Seed, h.History.Tier, h.History.Only, h.History.Cases
		args := append(childArgs(p, state, h.History.Child), "-shards", strconv.Itoa(h.History.Shards))
		kind, out := spawn(p, state, h.History.Child, args, limit, nil)
		var res childResult
		b, _ := os.ReadFile(filepath.Join(state, fmt.Sprintf("result-%d.json", h.History.Child)))
		if kind == endOK && json.Unmarshal(b, &res) == nil && res.Failure == nil {
			fmt.Printf("%s replay: the property held\n", p.ID)
			return 0
		}
		if res.Failure != nil {
			out = res.Failure.Detail
		}
		fmt.Println(out)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
		return 1
	}
	kind, out := spawnReplay(p, state, 0, []string{"-prop", p.ID, "-tier", *fTier, "-state", state, "-child", "0", "-replay", abs}, limit, nil)
	fmt.Print(out)
	if kind == endOK {
		fmt.Printf("%s replay: the property held\n", p.ID)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
	return 1
}

// replayChild is called first thing by child when a replay file is given.
func replayChild(p *Prop) int {
	b, err := os.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	a := p.arm(f.Arm)
	if a == nil {
		fmt.Println("unknown arm", f.Arm)
		return 2
	}
	c, err := a.decode(f.Case)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	s := &childState{p: p, res: &childResult{Stats: map[string]*armStats{a.Name: {Labels: map[string]int{}}}}, seen: map[string]bool{}, counts: map[string]int{}}
	if err := s.exec(a, c); err != nil {
		fmt.Println(err)
		return 3
	}
	return 0
}

func init() {
	// A replay child shares the entry point of a shard child.
	if os.Getenv("VERIF_REPLAY_CHILD") != "" {
		isReplayChild = true
	}
}

var isReplayChild bool

// stacks keeps the goroutines of a dump that run the code under test.
func stacks(dump string) string {
	var keep []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "gmlewis/stldice") && len(keep) < 4 {
			keep = append(keep, g)
		}
	}
	if len(keep) == 0 {
		return Tail(dump)
	}
	return strings.Join(keep, "\n\n")
}
