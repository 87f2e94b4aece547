// hmaster holds the check of the batch master under concurrency and faults. It
// is built with the race detector.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"image/png"
	"io"
	"math"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gmlewis/stldice/v4/stl2svx/master"
	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"github.com/golang/protobuf/proto"
	"golang.org/x/net/context"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verif/harness/core"
)

func main() { core.Main(c23()) }

// How an agent answers a call.
type reply struct {
	Kind  string `json:"kind"` // ok, big, code, error, both, die
	Delay int    `json:"delay,omitempty"`
	Code  int    `json:"code,omitempty"`
}

type agentScript struct {
	Join    int     `json:"join"`              // when it registers, in ms
	Again   int     `json:"again,omitempty"`   // registers once more then
	Gone    bool    `json:"gone,omitempty"`    // unreachable from the start
	Restart int     `json:"restart,omitempty"` // comes back so long after dying
	Same    bool    `json:"same,omitempty"`    // at the same address
	Replies []reply `json:"replies"`           // used in turn
}

type jobScript struct {
	Start  int    `json:"start"`
	Cancel int    `json:"cancel,omitempty"` // ms after the start
	Layers int    `json:"layers"`
	Dim    int    `json:"dim"`
	Div    [3]int `json:"div"`
	Prefix string `json:"prefix"`
	Bad    string `json:"bad,omitempty"`
}

type clusterCase struct {
	Agents []agentScript `json:"agents"`
	Jobs   []jobScript   `json:"jobs"`
}

var host = core.Loopback()

const origin = 1000 // apart from each other, so that a job is known by its model

func (j jobScript) request(id int) *pb.NewJobRequest {
	x := float64(id * origin)
	lo, hi := core.Vec{x, 1, 2}, core.Vec{x + float64(j.Dim), 1 + float64(j.Dim)/2, 2 + float64(j.Layers)}
	f := &pb.STLFile{}
	v := func(i int) *pb.Vertex {
		p := &pb.Vertex{X: lo[0], Y: lo[1], Z: lo[2]}
		if i&1 != 0 {
			p.X = hi[0]
		}
		if i&2 != 0 {
			p.Y = hi[1]
		}
		if i&4 != 0 {
			p.Z = hi[2]
		}
		return p
	}
	for _, q := range [][4]int{{0, 4, 6, 2}, {1, 3, 7, 5}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 2, 3, 1}, {4, 5, 7, 6}} {
		f.Triangles = append(f.Triangles, &pb.Triangle{V1: v(q[0]), V2: v(q[1]), V3: v(q[2])}, &pb.Triangle{V1: v(q[0]), V2: v(q[2]), V3: v(q[3])})
	}
	r := &pb.NewJobRequest{StlFiles: []*pb.STLFile{f}, Dim: int64(j.Dim), NX: int64(j.Div[0]), NY: int64(j.Div[1]), NZ: int64(j.Div[2]), OutPrefix: j.Prefix}
	switch j.Bad {
	case "nofiles":
		r.StlFiles = nil
	case "empty":
		f.Triangles = nil
	case "dim":
		r.Dim = 0
	case "nan":
		f.Triangles[0].V1.X = math.NaN()
	case "nx":
		r.NX = -1
	}
	return r
}

func jobOf(r *pb.NewJobRequest) int {
	m := math.Inf(1)
	for _, f := range r.GetStlFiles() {
		for _, t := range f.GetTriangles() {
			m = math.Min(m, t.GetV1().GetX())
		}
	}
	return int(math.Floor(m / origin))
}

type slice struct{ job, z int }

// cluster is a master with scripted agents.
type cluster struct {
	mu       sync.Mutex
	m        pb.MasterServer
	jobs     []*pb.NewJobRequest
	layers   []int
	made     map[slice][]string // images produced
	failed   map[int]bool       // jobs that were given a failure
	down     bool               // some agent died
	errs     []error
	infra    string
	serial   int
	last     atomic.Int64 // when an agent was asked
	final    bool
	finalJob int
	attend   map[int]bool
	all      chan struct{}
	working  int
	closing  bool
}

type agent struct {
	c      *cluster
	id     int
	script agentScript
	calls  int
	srv    *grpc.Server
	addr   string
	alive  bool
}

func (c *cluster) violation(format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.errs = append(c.errs, core.Failf(format, a...))
}

func (c *cluster) err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.infra != "" {
		core.Infra("%s", c.infra)
	}
	if len(c.errs) > 0 {
		return c.errs[0]
	}
	return nil
}

func (a *agent) SliceJob(ctx context.Context, in *pb.SliceJobRequest) (*pb.SliceJobResponse, error) {
	c := a.c
	id, z := jobOf(in.GetNewJobRequest()), int(in.GetZ())
	c.mu.Lock()
	if id < 0 || id >= len(c.jobs) || !proto.Equal(c.jobs[id], in.GetNewJobRequest()) {
		c.mu.Unlock()
		c.violation("an agent is asked to work on something that is not one of the jobs (model %d, prefix %q)", id, in.GetNewJobRequest().GetOutPrefix())
		return nil, status.Error(codes.InvalidArgument, "not a job")
	}
	if z < 0 || z >= c.layers[id] {
		c.mu.Unlock()
		c.violation("an agent is asked for slice %d of a model of %d slices", z, c.layers[id])
		return nil, status.Error(codes.InvalidArgument, "not a slice")
	}
	r := reply{Kind: "ok"}
	if !c.final {
		r = a.script.Replies[a.calls%len(a.script.Replies)]
	} else {
		c.attend[a.id] = true
		if len(c.attend) == c.working {
			close(c.all)
			c.working = -1
		}
	}
	a.calls++
	c.serial++
	serial := c.serial
	c.progress()
	final, all := c.final, c.all
	c.mu.Unlock()

	if final { // wait for all the others, so that each gets a slice
		select {
		case <-all:
		case <-ctx.Done():
		case <-time.After(45 * time.Second):
		}
	} else if r.Delay > 0 {
		select {
		case <-time.After(time.Duration(r.Delay) * time.Millisecond):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	switch r.Kind {
	case "code":
		c.failed[id] = true
		return nil, status.Errorf(codes.Code(r.Code), "scripted failure of slice %d", z)
	case "error":
		c.failed[id] = true
		return &pb.SliceJobResponse{Error: "scripted failure"}, nil
	case "both":
		c.failed[id] = true
		return &pb.SliceJobResponse{Error: "scripted failure", PngFile: []byte("half a slice")}, nil
	case "die":
		c.failed[id] = true
		c.down = true
		if a.alive {
			a.alive = false
			go a.srv.Stop()
			if a.script.Restart > 0 {
				time.AfterFunc(time.Duration(a.script.Restart)*time.Millisecond, a.start)
			}
		}
		return nil, status.Error(codes.Unavailable, "dying")
	}
	b := fmt.Sprintf("slice %d of job %d by agent %d, number %d", z, id, a.id, serial)
	if r.Kind == "big" { // beyond gRPC's default limit
		noise := make([]byte, 4<<20+1000) // nor does it compress
		rand.New(rand.NewSource(int64(serial))).Read(noise)
		b += string(noise)
	} else {
		b += strings.Repeat(".", serial*37%5000)
	}
	c.made[slice{id, z}] = append(c.made[slice{id, z}], b)
	return &pb.SliceJobResponse{PngFile: []byte(b)}, nil
}

// start listens and registers.
func (a *agent) start() {
	c := a.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closing {
		return
	}
	at := host + ":0"
	if a.addr != "" && a.script.Same {
		at = a.addr
	}
	lis, err := net.Listen("tcp", at)
	if err != nil {
		lis, err = net.Listen("tcp", host+":0")
	}
	if err != nil {
		c.infra = fmt.Sprint("listen: ", err)
		return
	}
	a.addr = lis.Addr().String()
	if a.script.Gone {
		lis.Close()
	} else {
		a.srv = grpc.NewServer(grpc.MaxRecvMsgSize(1<<30), grpc.MaxSendMsgSize(1<<30))
		pb.RegisterAgentServer(a.srv, a)
		a.alive = true
		go a.srv.Serve(lis)
	}
	go a.register()
}

func (a *agent) register() {
	a.c.mu.Lock()
	addr := a.addr
	a.c.mu.Unlock()
	if _, err := a.c.m.RegisterAgent(context.Background(), &pb.RegisterAgentRequest{Address: addr}); err != nil {
		a.c.violation("RegisterAgent: %v", err)
	}
}

// archive checks what a successful job delivered.
func (c *cluster) archive(id int, resp *pb.NewJobResponse) error {
	n := c.layers[id]
	b := resp.GetSvxFile()
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return core.Failf("the archive of a successful job is not readable: %v", err)
	}
	entries := map[string]string{}
	for _, f := range zr.File {
		if _, ok := entries[f.Name]; ok {
			return core.Failf("the archive has %q twice", f.Name)
		}
		r, err := f.Open()
		if err != nil {
			return core.Failf("archive entry %q: %v", f.Name, err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			return core.Failf("archive entry %q: %v", f.Name, err)
		}
		entries[f.Name] = string(data)
	}
	var man struct {
		Channels []struct {
			Slices string `xml:"slices,attr"`
		} `xml:"channels>channel"`
	}
	m, ok := entries["manifest.xml"]
	if !ok {
		return core.Failf("the archive of a successful job has no manifest")
	}
	if err := xml.Unmarshal([]byte(m), &man); err != nil || len(man.Channels) != 1 {
		return core.Failf("the manifest is not usable: %v\n%s", err, m)
	}
	delete(entries, "manifest.xml")
	for i := 0; i < n+2; i++ {
		name := fmt.Sprintf(man.Channels[0].Slices, i)
		e, ok := entries[name]
		if !ok {
			var names []string
			for k := range entries {
				names = append(names, k)
			}
			sort.Strings(names)
			return core.Failf("the archive of a successful job with %d slices has no %q; it has %q", n, name, names)
		}
		delete(entries, name)
		if i == 0 || i == n+1 {
			img, err := png.Decode(strings.NewReader(e))
			if err != nil {
				return core.Failf("border slice %d of %d: %v", i, n+2, err)
			}
			for x := img.Bounds().Min.X; x < img.Bounds().Max.X; x++ {
				for y := img.Bounds().Min.Y; y < img.Bounds().Max.Y; y++ {
					if r, g, b, _ := img.At(x, y).RGBA(); r+g+b != 0 {
						return core.Failf("border slice %d of %d is not blank", i, n+2)
					}
				}
			}
			continue
		}
		c.mu.Lock()
		made := c.made[slice{id, i - 1}]
		c.mu.Unlock()
		found := false
		for _, v := range made {
			found = found || v == e
		}
		if !found {
			return core.Failf("slice %d of %d of job %d holds %q, which no agent produced for it", i-1, n, id, head(e))
		}
	}
	for k := range entries {
		return core.Failf("the archive has an entry %q beyond the manifest and %d slices", k, n+2)
	}
	return nil
}

func head(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// A job that takes this long hangs, unless agents are still asked for slices; the limit of a case ends that.
const jobLimit = 60 * time.Second

func (c *cluster) progress() { c.last.Store(time.Now().UnixNano()) }

func (c *cluster) idle() time.Duration { return time.Duration(time.Now().UnixNano() - c.last.Load()) }

func gen(t *rapid.T) clusterCase {
	var c clusterCase
	faulty := rapid.IntRange(0, 3).Draw(t, "faulty") // 0: none
	for k := rapid.IntRange(1, 5).Draw(t, "agents"); k > 0; k-- {
		var a agentScript
		a.Join = rapid.SampledFrom([]int{0, 0, 0, 5, 40, 130, 250}).Draw(t, "join")
		if rapid.IntRange(0, 4).Draw(t, "twice") == 0 {
			a.Again = rapid.IntRange(1, 200).Draw(t, "again")
		}
		if faulty > 0 && rapid.IntRange(0, 5).Draw(t, "gone") == 0 {
			a.Gone = true
		}
		for r := rapid.IntRange(1, 5).Draw(t, "replies"); r > 0; r-- {
			p := reply{Kind: "ok", Delay: rapid.SampledFrom([]int{0, 0, 1, 5, 20, 60, 120}).Draw(t, "delay")}
			switch f := rapid.IntRange(0, 11).Draw(t, "kind"); {
			case f == 11 && rapid.IntRange(0, 3).Draw(t, "big") == 0:
				p.Kind = "big"
			case f < faulty:
				p.Kind = rapid.SampledFrom([]string{"code", "error", "both", "die"}).Draw(t, "fault")
			}
			if p.Kind == "code" {
				p.Code = rapid.SampledFrom([]int{int(codes.Unknown), int(codes.Internal), int(codes.InvalidArgument), int(codes.ResourceExhausted), int(codes.DeadlineExceeded), int(codes.Canceled), int(codes.Aborted), int(codes.Unimplemented)}).Draw(t, "code")
			}
			if p.Kind == "die" && rapid.Bool().Draw(t, "restarts") {
				a.Restart = rapid.IntRange(1, 150).Draw(t, "restart")
				a.Same = rapid.Bool().Draw(t, "same")
			}
			a.Replies = append(a.Replies, p)
		}
		c.Agents = append(c.Agents, a)
	}
	// Someone always comes to finish the work.
	c.Agents = append(c.Agents, agentScript{Join: rapid.SampledFrom([]int{0, 60, 220}).Draw(t, "last"), Replies: []reply{{Kind: "ok", Delay: rapid.IntRange(0, 10).Draw(t, "lastdelay")}}})
	for k := rapid.IntRange(1, 4).Draw(t, "jobs"); k > 0; k-- {
		j := jobScript{Start: rapid.SampledFrom([]int{0, 0, 0, 3, 30, 110, 230}).Draw(t, "start")}
		j.Layers = rapid.IntRange(1, 8).Draw(t, "layers")
		if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
			j.Layers = rapid.IntRange(9, 40).Draw(t, "layers")
		}
		j.Dim = rapid.IntRange(j.Layers, max(10, j.Layers)).Draw(t, "dim")
		j.Div = [3]int{rapid.IntRange(1, 3).Draw(t, "nx"), 1, rapid.IntRange(1, 3).Draw(t, "nz")}
		j.Div[0], j.Div[2] = min(j.Div[0], j.Dim), min(j.Div[2], j.Layers)
		j.Prefix = rapid.SampledFrom([]string{"out", "out", "a b", "dir/x", "50%", "%d"}).Draw(t, "prefix")
		if rapid.IntRange(0, 6).Draw(t, "cancels") == 0 {
			j.Cancel = rapid.IntRange(1, 250).Draw(t, "cancel")
		}
		if rapid.IntRange(0, 11).Draw(t, "isbad") == 0 {
			j.Bad = rapid.SampledFrom([]string{"nofiles", "empty", "dim", "nan", "nx"}).Draw(t, "bad")
		}
		if n := len(c.Jobs); n > 0 && rapid.IntRange(0, 2).Draw(t, "alike") == 0 { // only the model differs
			p := c.Jobs[n-1]
			j.Layers, j.Dim, j.Div, j.Prefix = p.Layers, p.Dim, p.Div, p.Prefix
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

func c23() *core.Prop {
	run := func(x *core.Ctx, s clusterCase) error {
		c := &cluster{m: master.New(), made: map[slice][]string{}, failed: map[int]bool{}, attend: map[int]bool{}, all: make(chan struct{})}
		for i, j := range s.Jobs {
			c.jobs = append(c.jobs, j.request(i))
			c.layers = append(c.layers, j.Layers)
		}
		var agents []*agent
		var timers []*time.Timer
		var joins sync.WaitGroup
		for i, as := range s.Agents {
			a := &agent{c: c, id: i, script: as}
			agents = append(agents, a)
			joins.Add(1)
			timers = append(timers, time.AfterFunc(ms(as.Join), func() { defer joins.Done(); a.start() }))
			if as.Again > 0 && !as.Gone {
				joins.Add(1)
				time.AfterFunc(ms(as.Join+as.Again), func() {
					defer joins.Done()
					c.mu.Lock()
					alive := a.alive
					c.mu.Unlock()
					if alive {
						a.register()
					}
				})
			}
		}
		x.Cleanup(func() {
			for _, t := range timers {
				t.Stop()
			}
			c.mu.Lock()
			c.closing = true
			c.mu.Unlock()
			for _, a := range agents {
				c.mu.Lock()
				srv := a.srv
				c.mu.Unlock()
				if srv != nil {
					srv.Stop()
				}
			}
		})
		type outcome struct {
			id   int
			resp *pb.NewJobResponse
			err  error
		}
		ctx, stop := context.WithCancel(context.Background())
		defer stop()
		done := make(chan outcome, len(s.Jobs))
		for i, j := range s.Jobs {
			go func() {
				time.Sleep(ms(j.Start))
				ctx, cancel := context.WithCancel(ctx)
				defer cancel()
				if j.Cancel > 0 {
					time.AfterFunc(ms(j.Cancel), cancel)
				}
				resp, err := c.m.NewJob(ctx, c.jobs[i])
				if err == nil && resp.GetError() != "" {
					err = fmt.Errorf("%s", resp.GetError())
				}
				done <- outcome{i, resp, err}
			}()
		}
		began := time.Now()
		c.progress()
		good, errors := 0, 0
		delivered, copies := map[int][]byte{}, map[int][]byte{}
		for range s.Jobs {
			var o outcome
			for waiting := true; waiting; {
				select {
				case o = <-done:
					waiting = false
					c.progress()
				case <-time.After(time.Second):
					// A slow machine may need longer, as long as there is some progress.
					if time.Since(began) > jobLimit && c.idle() > jobLimit/3 {
						return core.Failf("a job does not end within %v, although there is a working agent", jobLimit)
					}
				}
			}
			if err := c.err(); err != nil {
				return err
			}
			j := s.Jobs[o.id]
			what := fmt.Sprintf("job %d (%d slices)", o.id, j.Layers)
			if o.err != nil {
				errors++
				c.mu.Lock()
				excused := c.failed[o.id] || c.down
				c.mu.Unlock()
				if j.Bad == "" && j.Cancel == 0 && !excused {
					return core.Failf("%s fails, although no agent failed it: %v", what, o.err)
				}
				continue
			}
			if j.Bad != "" {
				return core.Failf("%s, a bad request (%s), is reported as done", what, j.Bad)
			}
			good++
			if err := c.archive(o.id, o.resp); err != nil {
				return err
			}
			delivered[o.id] = o.resp.GetSvxFile()
			copies[o.id] = bytes.Clone(delivered[o.id])
		}
		joins.Wait()
		time.Sleep(2 * time.Millisecond)
		// Restarts that are still to come.
		wait := 0
		for _, a := range agents {
			wait = max(wait, a.script.Restart)
		}
		time.Sleep(ms(wait))
		time.Sleep(5 * time.Millisecond) // for the last registrations
		c.mu.Lock()
		working, dead := 0, 0
		for _, a := range agents {
			if a.alive {
				working++
			} else {
				dead++
			}
		}
		c.mu.Unlock()
		// A last job, which needs all the agents that work.
		var err error
		for try := 0; try < 3+dead; try++ {
			id := len(c.jobs)
			j := jobScript{Layers: working, Dim: working, Div: [3]int{1, 1, 1}, Prefix: "last"}
			c.mu.Lock()
			c.jobs = append(c.jobs, j.request(id))
			c.layers = append(c.layers, working)
			c.final, c.working, c.all, c.attend = true, working, make(chan struct{}), map[int]bool{}
			req := c.jobs[id]
			c.mu.Unlock()
			var resp *pb.NewJobResponse
			finished := make(chan struct{})
			go func() {
				defer close(finished)
				resp, err = c.m.NewJob(ctx, req)
				if err == nil && resp.GetError() != "" {
					err = fmt.Errorf("%s", resp.GetError())
				}
			}()
			select {
			case <-finished:
			case <-time.After(jobLimit + 60*time.Second):
				return core.Failf("a job after the others does not end, although there are %d working agents", working)
			}
			if e := c.err(); e != nil {
				return e
			}
			if err != nil {
				continue
			}
			c.mu.Lock()
			came := len(c.attend)
			c.mu.Unlock()
			if came != working {
				return core.Failf("after the jobs, only %d of the %d working agents are given work", came, working)
			}
			if err := c.archive(id, resp); err != nil {
				return err
			}
			break
		}
		if err != nil {
			return core.Failf("after the jobs, a job still fails with %d working agents: %v", working, err)
		}
		for id, b := range delivered { // while other jobs ran
			if !bytes.Equal(b, copies[id]) {
				return core.Failf("the archive of job %d changed after it was delivered", id)
			}
		}
		if len(s.Jobs) > 1 {
			x.Label("several jobs")
		}
		for _, a := range s.Agents {
			if a.Gone {
				x.Label("unreachable agent")
				break
			}
		}
		for _, j := range s.Jobs {
			if j.Cancel > 0 {
				x.Label("cancelled")
				break
			}
		}
		c.mu.Lock()
		if len(c.failed) > 0 {
			x.Label("agent failure")
		}
		c.mu.Unlock()
		if errors > 0 {
			x.Label("job failed")
		}
		if good > 0 && (len(s.Jobs) > 1 || errors > 0 || len(c.failed) > 0 || c.down) {
			x.NonTrivial()
		}
		return nil
	}
	arm := core.NewArm("cluster", 480, 12000, gen, run)
	// Many more slices than agents: the work must get done all the same.
	core.Fixed(arm, func(thorough bool) (out []clusterCase) {
		ok := []reply{{Kind: "ok"}}
		add := func(layers, jobs, agents int) {
			c := clusterCase{}
			for ; agents > 0; agents-- {
				c.Agents = append(c.Agents, agentScript{Replies: ok})
			}
			for ; jobs > 0; jobs-- {
				c.Jobs = append(c.Jobs, jobScript{Layers: layers, Dim: layers, Div: [3]int{1, 1, 1}, Prefix: "out"})
			}
			out = append(out, c)
		}
		add(60, 1, 1)
		add(150, 1, 1)
		add(40, 4, 1)
		add(120, 2, 3)
		add(260, 1, 3)
		add(1003, 1, 4)
		add(2, 40, 3)
		add(1, 130, 2)
		add(10, 2, 40)
		add(140, 1, 130)
		// Many slices that fail at once, or are given up.
		for _, r := range []reply{{Kind: "code", Code: int(codes.Internal)}, {Kind: "error"}, {Kind: "die"}} {
			for _, layers := range []int{40, 130} {
				c := clusterCase{Jobs: []jobScript{{Layers: layers, Dim: layers, Div: [3]int{1, 1, 1}, Prefix: "out"}}}
				c.Agents = append(c.Agents, agentScript{Replies: []reply{{Kind: "ok", Delay: 5}, r}}, agentScript{Replies: ok})
				out = append(out, c)
				c.Agents = []agentScript{{Join: 150, Replies: ok}, {Replies: []reply{r}}, {Replies: []reply{r}}}
				c.Jobs = append(c.Jobs, c.Jobs[0])
				c.Jobs[0].Cancel = 30
				out = append(out, c)
			}
		}
		// Jobs that fail one after another: nothing of them may stay.
		for _, bad := range []string{"nofiles", "empty", "dim", "nan", "nx", "code", "error", "cancel"} {
			c := clusterCase{Agents: []agentScript{{Replies: ok}, {Replies: ok}}}
			for n := 0; n < 150; n++ {
				j := jobScript{Start: n, Layers: 1, Dim: 2, Div: [3]int{1, 1, 1}, Prefix: "out"}
				switch bad {
				case "code":
					c.Agents[0].Replies = []reply{{Kind: "code", Code: int(codes.Internal)}}
					c.Agents[1].Replies = c.Agents[0].Replies
				case "error":
					c.Agents[0].Replies = []reply{{Kind: "error"}}
				case "cancel":
					c.Agents[0].Replies = []reply{{Kind: "ok", Delay: 4}}
					c.Agents[1].Replies = c.Agents[0].Replies
					j.Cancel = 1 + n%7
				default:
					j.Bad = bad
				}
				c.Jobs = append(c.Jobs, j)
			}
			out = append(out, c)
		}
		// Many agents that cannot be reached, with one that can.
		for _, layers := range []int{1, 2, 12} {
			c := clusterCase{Jobs: []jobScript{{Start: 60, Layers: layers, Dim: layers, Div: [3]int{1, 1, 1}, Prefix: "out"}}}
			for i := 0; i < 60; i++ {
				c.Agents = append(c.Agents, agentScript{Gone: true, Replies: ok})
			}
			c.Agents = append(c.Agents, agentScript{Replies: ok})
			out = append(out, c)
		}
		if thorough {
			add(400, 1, 1)
			add(300, 2, 2)
			add(30, 20, 1)
			add(600, 1, 2)
			add(3, 260, 2)
			add(300, 1, 260)
		}
		return out
	})
	return &core.Prop{
		ID:   "C23",
		Rule: "one to four jobs, alike but for the model or not, of up to 8 (some 40) slices with scripted start and cancellation times on one to six scripted agents (delays, error codes, error replies, replies of more than 4 MB, dying in a call, restarting elsewhere, unreachable, registering late or twice), followed by a job that needs every working agent at once; jobs of up to 1003 slices for one to three agents, which may all fail; up to 130 agents; 60 agents that cannot be reached; up to 130 jobs at once, 150 failing ones in a row; non-trivial: a job succeeds and there are other jobs or failures",
		Arms: []*core.Arm{arm},
		Assumptions: []string{
			"schedules are those of the Go scheduler and of scripted delays; data races on them are reported by the race detector",
			"a job may fail when an agent failed one of its slices, or any agent died in a call; it need not be tried again",
			"agents are servers in the same process, reached over the loopback network",
		},
		Shards:    32,
		CaseLimit: 3 * time.Minute,
	}
}
