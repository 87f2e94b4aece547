package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"maps"
	"math"
	"net"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	pb "github.com/gmlewis/stldice/v4/stl2svx/proto"
	"pgregory.net/rapid"
	"verif/harness/core"
)

// farm is a master and its agents, running as the real executables. One
// serves all the ordinary cases of a process, and ends with it (its parent
// ends its process group).
type farm struct {
	host   string   // where the master listens
	listen []string // what each agent is told to listen on
	addr   string
	procs  []*exec.Cmd
	dead   chan string
}

var theFarm = farm{host: loopback, listen: []string{loopback + ":0", loopback + ":0", loopback + ":0", loopback + ":0", loopback + ":0", loopback + ":0", loopback + ":0", loopback + ":0"}}

var loopback = core.Loopback()

func freePort(host string) string {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		core.Infra("listen: %v", err)
	}
	defer l.Close()
	return l.Addr().String()
}

// address starts the farm unless it runs.
func (f *farm) address(x *core.Ctx) (string, error) {
	if f.addr != "" {
		return f.addr, nil
	}
	f.dead = make(chan string, 2*len(f.listen)+8)
	start := func(what string, args ...string) {
		cmd := exec.Command(filepath.Join(x.BinDir, "stl2svx-server"), args...)
		cmd.Dir = x.BinDir
		b := &bytes.Buffer{}
		cmd.Stderr, cmd.Stdout = b, b
		if err := cmd.Start(); err != nil {
			core.Infra("starting %s: %v", what, err)
		}
		core.LimitMemory(cmd.Process.Pid)
		core.LimitFiles(cmd.Process.Pid)
		f.procs = append(f.procs, cmd)
		dead := f.dead
		go func() {
			cmd.Wait()
			dead <- fmt.Sprintf("%s ended (%v): %s", what, cmd.ProcessState, core.Tail(b.String()))
		}()
	}
	for try := 0; ; try++ {
		addr := freePort(f.host)
		start("the master", "-port", addr)
		up := false
		for i := 0; i < 600 && !up; i++ {
			if c, err := net.Dial("tcp", addr); err == nil {
				c.Close()
				up = true
			} else {
				time.Sleep(10 * time.Millisecond)
			}
		}
		why := "the master does not listen on the address given by -port"
		if up { // unless someone else took the address
			time.Sleep(100 * time.Millisecond)
			if why = f.ended(); why == "" {
				f.addr = addr
				break
			}
		}
		f.stop()
		if try == 3 {
			return "", core.Failf("%s", why)
		}
		f.dead = make(chan string, 2*len(f.listen)+8)
	}
	for _, l := range f.listen {
		start("an agent listening on "+l, "-port", l, "-master", f.addr)
	}
	return f.addr, nil
}

func (f *farm) stop() {
	for _, c := range f.procs {
		c.Process.Kill()
	}
	f.procs, f.addr, f.dead = nil, "", nil
}

// ended reports a process of the farm that is gone.
func (f *farm) ended() string {
	select {
	case s := <-f.dead:
		return s
	default:
		return ""
	}
}

type archiveCase struct {
	Model  stldiceCase `json:"model"`
	Prefix string      `json:"prefix"`
	Bad    string      `json:"bad,omitempty"` // a job before it
	BadV   int         `json:"badv,omitempty"`
	Host   string      `json:"host,omitempty"` // a master and agents just for this case
	Listen string      `json:"listen,omitempty"`
}

type manifest struct {
	GridSizeX   string `xml:"gridSizeX,attr"`
	GridSizeY   string `xml:"gridSizeY,attr"`
	GridSizeZ   string `xml:"gridSizeZ,attr"`
	VoxelSize   string `xml:"voxelSize,attr"`
	OriginX     string `xml:"originX,attr"`
	OriginY     string `xml:"originY,attr"`
	OriginZ     string `xml:"originZ,attr"`
	Orientation string `xml:"slicesOrientation,attr"`
	Channels    []struct {
		Type   string `xml:"type,attr"`
		Slices string `xml:"slices,attr"`
	} `xml:"channels>channel"`
}

// checkArchive decides the archive of a job.
func checkArchive(what string, s *slices, b []byte) (white int, err error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return 0, core.Failf("%s: the archive is not readable: %v", what, err)
	}
	entries := map[string][]byte{}
	for _, e := range zr.File {
		if _, ok := entries[e.Name]; ok {
			return 0, core.Failf("%s: the archive has %q twice", what, e.Name)
		}
		r, err := e.Open()
		if err != nil {
			return 0, core.Failf("%s: entry %q: %v", what, e.Name, err)
		}
		if entries[e.Name], err = io.ReadAll(r); err != nil {
			return 0, core.Failf("%s: entry %q: %v", what, e.Name, err)
		}
	}
	var m manifest
	if err := xml.Unmarshal(entries["manifest.xml"], &m); err != nil || len(m.Channels) != 1 {
		return 0, core.Failf("%s: the manifest is not usable: %v\n%s", what, err, entries["manifest.xml"])
	}
	delete(entries, "manifest.xml")
	if m.Channels[0].Type != "DENSITY" || m.Orientation != "Y" {
		return 0, core.Failf("%s: the manifest describes a %q channel with orientation %q", what, m.Channels[0].Type, m.Orientation)
	}
	num := func(name, v string, want float64) error {
		f, err := strconv.ParseFloat(v, 64)
		if err != nil || math.Abs(f-want) > 1e-9*max(math.Abs(want), math.Abs(s.mmpv)) {
			return core.Failf("%s: %s is %q in the manifest, want %v", what, name, v, want)
		}
		return nil
	}
	for _, e := range []error{
		num("the voxel size", m.VoxelSize, s.mmpv*1e-3),
		num("originX", m.OriginX, s.lo[0]), num("originY", m.OriginY, s.lo[2]), num("originZ", m.OriginZ, s.lo[1]),
		num("gridSizeX", m.GridSizeX, float64(s.dim+2)), num("gridSizeZ", m.GridSizeZ, float64(s.dim+2)),
	} {
		if e != nil {
			return 0, e
		}
	}
	if !onePrintfNumber(m.Channels[0].Slices) {
		return 0, core.Failf("%s: the pattern of the slices, %q, is not one of a number", what, m.Channels[0].Slices)
	}
	layers := len(entries)
	if err := num("gridSizeY", m.GridSizeY, float64(layers)); err != nil {
		return 0, err
	}
	if layers < s.n[2]+2 || layers > s.hi[2]+2 {
		return 0, core.Failf("%s: %d images for a base of %d layers", what, layers, s.n[2])
	}
	for i := 0; i < layers; i++ {
		name := fmt.Sprintf(m.Channels[0].Slices, i)
		e, ok := entries[name]
		if !ok {
			return 0, core.Failf("%s: slice %d of %d is %q by the manifest, which is not among %q", what, i, layers, name, keys(entries))
		}
		z := i - 1
		if i == layers-1 {
			z = -1 // blank like the first
		}
		w, err := s.check(what, z, e)
		if err != nil {
			return 0, err
		}
		white += w
	}
	return white, nil
}

// onePrintfNumber tells whether printf expands a format with one number.
func onePrintfNumber(f string) bool {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		if i++; i < len(f) && f[i] == '%' {
			continue
		}
		for i < len(f) && '0' <= f[i] && f[i] <= '9' {
			i++
		}
		if i == len(f) || f[i] != 'd' {
			return false
		}
		n++
	}
	return n == 1
}

func genPrefix(t *rapid.T) string {
	part := func() string {
		return rapid.SampledFrom([]string{"out", "a b", "50%", "%d", "%04d", "100%s", "a&b", "<x>", `"q"`, "it's", "häß", "日本", "x-1-2", "a.b", "..x", "m\\n", "&amp;", "%%", "-", "]]>", " x "}).Draw(t, "part")
	}
	p := part()
	if rapid.IntRange(0, 2).Draw(t, "join") == 0 {
		p += part()
	}
	switch rapid.IntRange(0, 7).Draw(t, "dirs") {
	case 0:
		p = part() + "/" + p
	case 1:
		p = part() + "/" + part() + "/" + p
	case 2:
		p = "./" + p
	case 3:
		p = "sub/../" + p
	}
	return p
}

// reachable tells whether this machine has the addresses, and an agent on all
// of them can know one at which it can be reached.
func reachable(host, listen string) bool {
	h, _, _ := net.SplitHostPort(listen)
	for _, a := range []string{host, h} {
		l, err := net.Listen("tcp", net.JoinHostPort(a, "0"))
		if err != nil {
			return false
		}
		defer l.Close()
		addr := l.Addr().(*net.TCPAddr)
		at := []string{addr.IP.String()}
		if addr.IP.IsUnspecified() {
			addrs, err := net.InterfaceAddrs()
			if err != nil {
				return false
			}
			at = nil
			for _, a := range addrs {
				n, ok := a.(*net.IPNet)
				if !ok {
					return false
				}
				if n.IP.To4() != nil || !n.IP.IsLinkLocalUnicast() {
					at = append(at, n.IP.String())
				}
			}
		}
		for _, ip := range at {
			c, err := net.DialTimeout("tcp", net.JoinHostPort(ip, fmt.Sprint(addr.Port)), 5*time.Second)
			if err != nil {
				return false
			}
			c.Close()
		}
	}
	return true
}

type replyCase struct {
	Model  stldiceCase `json:"model"`
	Prefix string      `json:"prefix"`
	Reply  string      `json:"reply"` // archive, error, status
	Size   int         `json:"size"`  // of the archive
	Msg    string      `json:"msg"`
	Old    int         `json:"old,omitempty"` // bytes in the output beforehand
}

func genReply(t *rapid.T) replyCase {
	c := replyCase{Model: genCutModel(t), Prefix: genPrefix(t), Old: core.GenOld(t)}
	c.Reply = rapid.SampledFrom([]string{"archive", "archive", "error", "status"}).Draw(t, "reply")
	c.Msg = rapid.SampledFrom([]string{"no agents", "%s %d", "x", "line\nline"}).Draw(t, "msg")
	c.Size = rapid.OneOf(rapid.IntRange(1, 300), rapid.SampledFrom([]int{4 << 20, 4<<20 + 1, 6 << 20, 20 << 20})).Draw(t, "size")
	return c
}

// triCounts is a multiset of oriented triangles, to single precision.
func triCounts(tris []core.Tri) map[[3][3]float32]int {
	out := map[[3][3]float32]int{}
	for _, t := range tris {
		var k [3][3]float32
		for i := range t {
			for j := range t[i] {
				k[i][j] = float32(t[i][j])
			}
		}
		less := func(a, b [3]float32) bool {
			for i := range a {
				if a[i] != b[i] {
					return a[i] < b[i]
				}
			}
			return false
		}
		for r := 0; r < 2 && (less(k[1], k[0]) || less(k[2], k[0])); r++ {
			k = [3][3]float32{k[1], k[2], k[0]}
		}
		out[k]++
	}
	return out
}

// runReply lets the client ask a stand-in for the master.
func runReply(x *core.Ctx, c replyCase) error {
	m := c.Model
	var list []string
	var tris [][]core.Tri
	for i, mm := range m.Models {
		tr := m.tris(mm, m.Snap && i == 0)
		tris = append(tris, tr)
		b := m.encode(mm, tr)
		list = append(list, m.file(i, "a cut.stl"))
		put(x, list[i], b)
	}
	os.MkdirAll(filepath.Join(x.Dir(), "sub"), 0o755)
	os.MkdirAll(filepath.Join(x.Dir(), path.Dir(c.Prefix)), 0o755)
	sm := core.TheStandInMaster()
	archive := make([]byte, c.Size)
	for i := range archive {
		archive[i] = byte(i*7 + i>>8)
	}
	switch c.Reply {
	case "archive":
		sm.Answer(&pb.NewJobResponse{SvxFile: archive}, nil)
	case "error":
		sm.Answer(&pb.NewJobResponse{Error: c.Msg}, nil)
	case "status":
		sm.Answer(nil, errors.New(c.Msg))
	}
	out := path.Clean(fmt.Sprintf("%v-%v-%v-%v-%v.svx", c.Prefix, m.Dim, m.Div[0], m.Div[1], m.Div[2]))
	if c.Reply == "archive" {
		core.WriteOld(filepath.Join(x.Dir(), out), c.Old)
	}
	before := files(x)
	args := []string{"-master", sm.Addr, "-stl", strings.Join(list, ",")}
	if c.Prefix != "out" {
		args = append(args, "-prefix="+c.Prefix)
	}
	args = append(args, options(dims, "-dim", fmt.Sprint(m.Dim), "-nx", fmt.Sprint(m.Div[0]), "-ny", fmt.Sprint(m.Div[1]), "-nz", fmt.Sprint(m.Div[2]))...)
	r := x.Tool(core.ToolOpt{}, "stl2svx-client", args...)
	what := fmt.Sprintf("stl2svx-client with %d files whose master replies with an %s", len(list), c.Reply)
	x.Label("%s", c.Reply)
	x.NonTrivial()
	if r.Crashed {
		return core.Failf("%s crashes: %s", what, core.Tail(r.Stderr))
	}
	reqs := sm.Requests()
	if len(reqs) != 1 {
		return core.Failf("%s asks for %d jobs: %s", what, len(reqs), core.Tail(r.Stderr))
	}
	q := reqs[0]
	if q.Dim != int64(m.Dim) || q.NX != int64(m.Div[0]) || q.NY != int64(m.Div[1]) || q.NZ != int64(m.Div[2]) || q.OutPrefix != c.Prefix || len(q.StlFiles) != len(tris) {
		return core.Failf("%s asks for %d voxels, divisions %d, %d and %d, prefix %q of %d models, but is told %d, %v, %q and %d", what, q.Dim, q.NX, q.NY, q.NZ, q.OutPrefix, len(q.StlFiles), m.Dim, m.Div, c.Prefix, len(tris))
	}
	v := func(p *pb.Vertex) core.Vec { return core.Vec{p.GetX(), p.GetY(), p.GetZ()} }
	for i, f := range q.StlFiles {
		var got []core.Tri
		for _, t := range f.Triangles {
			got = append(got, core.Tri{v(t.GetV1()), v(t.GetV2()), v(t.GetV3())})
		}
		if !maps.Equal(triCounts(got), triCounts(tris[i])) {
			return core.Failf("%s sends other triangles (%d) than those of file %d (%d)", what, len(got), i, len(tris[i]))
		}
	}
	for n := range files(x) {
		if _, ok := before[n]; !ok && (n != out || c.Reply != "archive") {
			return core.Failf("%s writes %q", what, n)
		}
	}
	if c.Reply != "archive" {
		if r.Code == 0 {
			return core.Failf("%s reports success", what)
		}
		return nil
	}
	if r.Code != 0 {
		return core.Failf("%s fails: %s", what, core.Tail(r.Stderr))
	}
	if b := get(x, out); !bytes.Equal(b, archive) {
		return core.Failf("%s writes %d bytes of an archive of %d that are not the same", what, len(b), len(archive))
	}
	return nil
}

func c24() *core.Prop {
	genTallJob := func(t *rapid.T) archiveCase {
		c := archiveCase{Model: genCutModel(t), Prefix: genPrefix(t)}
		genTall(t, &c.Model)
		if c.Model.Ext[2] > 150 { // fewer images
			for i := range c.Model.Ext {
				if c.Model.Ext[i] == float64(c.Model.Dim) {
					c.Model.Ext[i] = 130
				}
			}
			for i := range c.Model.Models {
				for k := range c.Model.Models[i].Solids {
					o := &c.Model.Models[i].Solids[k]
					for j := range o.Size {
						o.Size[j], o.Pos[j] = min(o.Size[j], c.Model.Ext[j]), min(o.Pos[j], c.Model.Ext[j]/2)
					}
				}
			}
			c.Model.Dim = 130
		}
		return c
	}
	genCrowdJob := func(t *rapid.T) archiveCase {
		c := archiveCase{Model: genCutModel(t), Prefix: genPrefix(t)}
		genCrowd(t, &c.Model, []int{4, 8, 9, 16, 17, 33, 65, 101, 130, 257})
		return c
	}
	gen := func(t *rapid.T) archiveCase {
		c := archiveCase{Model: genCutModel(t), Prefix: "out"}
		if rapid.IntRange(0, 2).Draw(t, "plain") > 0 {
			c.Prefix = genPrefix(t)
		}
		if rapid.IntRange(0, 4).Draw(t, "isbad") == 0 {
			c.Bad = rapid.SampledFrom([]string{"divisions", "missing", "empty", "truncated", "nomaster", "dim", "negative", "cut"}).Draw(t, "bad")
			c.BadV = rapid.IntRange(0, 60).Draw(t, "badv")
		}
		return c
	}
	run := func(x *core.Ctx, c archiveCase) (err error) {
		fm := &theFarm
		if c.Host != "" {
			if !reachable(c.Host, c.Listen) {
				x.Label("address not available here")
				return nil
			}
			fm = &farm{host: c.Host, listen: []string{c.Listen, c.Listen, c.Listen}}
			x.Label("agents on %s", c.Listen)
		}
		addr, err := fm.address(x)
		if err != nil {
			return err
		}
		defer func() {
			if s := fm.ended(); s != "" {
				err = core.Failf("%s", s)
			}
			if err != nil || fm != &theFarm {
				fm.stop()
			}
		}()
		m := c.Model
		var tris [][]core.Tri
		list := ""
		for i, mm := range m.Models {
			tr := m.tris(mm, m.Snap && i == 0)
			tris = append(tris, tr)
			b := m.encode(mm, tr)
			name := m.file(i, "a cut.stl")
			put(x, name, b)
			if i > 0 {
				list += ","
			}
			list += name
		}
		s, err := m.slices(tris)
		if err != nil {
			return err
		}
		os.MkdirAll(filepath.Join(x.Dir(), "sub"), 0o755)
		os.MkdirAll(filepath.Join(x.Dir(), path.Dir(c.Prefix)), 0o755)
		client := func(dim int, div [3]int, list, addr string) (core.ToolResult, string) {
			args := []string{"-master", addr, "-stl", list}
			if c.Prefix != "out" {
				args = append(args, "-prefix="+c.Prefix)
			}
			args = append(args, options(dims, "-dim", fmt.Sprint(dim), "-nx", fmt.Sprint(div[0]), "-ny", fmt.Sprint(div[1]), "-nz", fmt.Sprint(div[2]))...)
			r := x.Tool(core.ToolOpt{Timeout: 40 * time.Second}, "stl2svx-client", args...)
			return r, fmt.Sprintf("%v-%v-%v-%v-%v.svx", c.Prefix, dim, div[0], div[1], div[2])
		}
		if !s.fits(m.Div) {
			x.Label("too many divisions")
			m.Div = [3]int{1, 1, 1}
			if !s.fits(m.Div) {
				return nil
			}
		}
		what := fmt.Sprintf("stl2svx-client -dim %d -nx %d -ny %d -nz %d -prefix %q of a base of %v cells with %d cuts", m.Dim, m.Div[0], m.Div[1], m.Div[2], c.Prefix, s.n, len(m.Models)-1)
		if c.Bad != "" {
			dim, div, files, to := m.Dim, m.Div, list, addr
			switch c.Bad {
			case "divisions":
				i := c.BadV % 3
				div[i] = s.hi[i] + 1 + c.BadV%5
			case "missing":
				files = []string{"nothing.stl", "base.stl,nothing.stl"}[c.BadV%2]
			case "empty":
				put(x, "empty.stl", core.EncodeSTL(nil))
				files = "empty.stl,base.stl"
			case "truncated":
				b := core.EncodeSTL(tris[0])
				put(x, "short.stl", b[:min(len(b)-1, 20+c.BadV)])
				files = "short.stl"
			case "nomaster":
				to = freePort(loopback)
			case "dim":
				dim = 0
			case "negative":
				if c.BadV%2 == 0 {
					dim = -dim
				} else {
					div[c.BadV%3] = -1
				}
			case "cut": // not a number, spelled out
				put(x, "nan.stl", []byte("solid x\nfacet normal 0 0 0\nouter loop\nvertex NaN 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\nendsolid\n"))
				files = list + ",nan.stl"
			}
			r, out := client(dim, div, files, to)
			if r.Crashed {
				return core.Failf("stl2svx-client with an unusable job (%s) crashes: %s", c.Bad, core.Tail(r.Stderr))
			}
			if r.Code == 0 {
				return core.Failf("stl2svx-client with an unusable job (%s) reports success", c.Bad)
			}
			if get(x, out) != nil {
				return core.Failf("stl2svx-client with an unusable job (%s) writes %s", c.Bad, out)
			}
			x.Label("unusable: %s", c.Bad)
		}
		before := files(x)
		r, out := client(m.Dim, m.Div, list, addr)
		if r.Crashed || r.Code != 0 {
			return core.Failf("%s fails with status %d: %s", what, r.Code, core.Tail(r.Stderr))
		}
		for n := range files(x) {
			if _, ok := before[n]; !ok && n != path.Clean(out) {
				return core.Failf("%s writes %q, want %q", what, n, out)
			}
		}
		b := get(x, out)
		if b == nil {
			return core.Failf("%s does not write %q", what, out)
		}
		white, err := checkArchive(what, s, b)
		if err != nil {
			return err
		}
		if white > 0 {
			x.NonTrivial()
		}
		if c.Prefix != "out" {
			x.Label("odd prefix")
		}
		if len(tris) > 1 {
			x.Label("cuts")
		}
		if m.Div[2] > 1 {
			x.Label("divided in z")
		}
		return nil
	}
	places := func(thorough bool) (out []archiveCase) {
		for _, h := range []string{"127.0.0.1", "::1", "localhost"} {
			for i, l := range []string{":0", "0.0.0.0:0", "[::]:0", "[::1]:0", "localhost:0", "127.0.0.2:0"} {
				c := archiveCase{Prefix: "out", Host: h, Listen: l}
				c.Model = stldiceCase{MMPV: 1, Ext: [3]float64{6, 5, 4}, Dim: 6, Div: [3]int{2, 1, 1 + i%2}}
				c.Model.Models = []stlModel{{Solids: []core.Solid{{Kind: "box", Size: [3]float64{6, 5, 4}, Pos: [3]float64{3, 2.5, 2}}}}}
				if thorough || h == "127.0.0.1" || i == 3 {
					out = append(out, c)
				}
			}
		}
		return out
	}
	// Models of more triangles than a message holds by default.
	large := func(thorough bool) (out []archiveCase) {
		ns := []int{72, 128}
		if thorough {
			ns = append(ns, 40, 200, 320)
		}
		for i, n := range ns {
			c := archiveCase{Prefix: "out"}
			c.Model = stldiceCase{MMPV: 1, Ext: [3]float64{7, 6, 5}, Dim: 7, Div: [3]int{1 + i%2, 2, 1}}
			c.Model.Models = []stlModel{{Solids: []core.Solid{{Kind: "fine", N: n, Size: [3]float64{4, 6, 5}, Pos: [3]float64{2, 3, 2.5}}, {Kind: "box", Size: [3]float64{2, 5, 4}, Pos: [3]float64{6, 3.5, 2}}}}}
			if i%2 == 1 { // a cut of many triangles
				c.Model.Models = append(c.Model.Models, stlModel{Solids: []core.Solid{{Kind: "fine", N: n, Size: [3]float64{3, 2, 7}, Pos: [3]float64{3.5, 3, 1}}, {Kind: "box", Size: [3]float64{2, 1, 2}, Pos: [3]float64{6, 3.5, 2}}}})
			}
			out = append(out, c)
		}
		return out
	}
	return &core.Prop{
		ID:    "C24",
		Rule:  "bases and up to two cuts (`crowd`: up to 257, some without triangles) as in C22, as text or binary files, through the real client, master and eight agents, with output prefixes of letters, directories, percent signs, XML characters and non-ASCII text, every fifth job preceded by an unusable one; tall thin models of hundreds of layers; masters and agents told to listen on 18 pairs of addresses; models of up to 400000 triangles (35 MB as a message); replies with archives, errors and failures from a stand-in for the master; non-trivial: an archive with a white pixel",
		Tools: []string{"./stl2svx/stl2svx-server", "./stl2svx/stl2svx-client"},
		Assumptions: []string{
			"the manifest's pattern is expanded as printf does, as the SVX format has it",
			"voxels are those of binvox.Voxelize on the base's lattice (decided by C06 and C07); a voxel whose state changes under a shift of 1e-8 voxel is left open",
			"where the base's extent is within 1e-6 of a whole number of voxels, either number of layers is accepted",
		},
		Arms: []*core.Arm{core.NewArm("jobs", 600, 12000, gen, run),
			core.Fixed(core.NewArm("places", 0, 0, nil, run), places),
			core.Fixed(core.NewArm("large", 0, 0, nil, run), large),
			core.Fixed(core.NewArm("defaults", 0, 0, nil, run), func(bool) []archiveCase {
				return []archiveCase{{Model: plain(8192), Prefix: "out"}, {Model: plain(64), Prefix: "out"}, {Model: broad(), Prefix: "out"}}
			}),
			core.NewArm("tall", 16, 300, genTallJob, run),
			core.NewArm("crowd", 12, 300, genCrowdJob, run),
			core.NewArm("replies", 400, 6000, genReply, runReply)},
		Shards:    12,
		CaseLimit: 3 * time.Minute,
	}
}
