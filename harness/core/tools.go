package core

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
	"time"
)

// ToolResult is the outcome of running an executable built from /repo.
type ToolResult struct {
	Code    int // exit status, -1 if killed by a signal
	Stdout  string
	Stderr  string
	Crashed bool // a Go panic, fatal error or signal rather than an orderly exit
}

// ToolOpt adjusts a tool run.
type ToolOpt struct {
	Dir     string
	Env     []string
	FSize   int64 // if > 0, RLIMIT_FSIZE-1 (so that 0 bytes can be expressed as 1)
	Timeout time.Duration
}

func init() {
	// Helper mode: limit file sizes, then become the tool.
	if v := os.Getenv("VERIF_EXEC_FSIZE"); v != "" {
		n, _ := strconv.ParseUint(v, 10, 64)
		os.Unsetenv("VERIF_EXEC_FSIZE")
		if err := syscall.Setrlimit(1 /* RLIMIT_FSIZE */, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(99)
		}
		err := syscall.Exec(os.Args[1], os.Args[1:], os.Environ())
		fmt.Fprintln(os.Stderr, err)
		os.Exit(99)
	}
}

// capped collects output up to a size that no orderly run reaches.
type capped struct {
	buf  bytes.Buffer
	stop func()
	over bool
}

func (c *capped) Write(b []byte) (int, error) {
	if c.buf.Len()+len(b) > 64<<20 {
		c.over = true
		c.stop()
		return 0, fmt.Errorf("too much output")
	}
	return c.buf.Write(b)
}

// Tool runs an executable built from /repo/cmd in the given directory.
func (x *Ctx) Tool(o ToolOpt, name string, args ...string) ToolResult {
	path := name // an absolute path, or one of Prop.Tools
	if !filepath.IsAbs(name) {
		path = filepath.Join(x.BinDir, name)
	}
	if _, err := os.Stat(path); err != nil {
		Infra("tool %s: %v", name, err)
	}
	to := o.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	for attempt := 0; ; attempt++ {
		ctx, cancel := context.WithTimeout(context.Background(), to)
		var cmd *exec.Cmd
		if o.FSize > 0 {
			self, err := os.Executable()
			if err != nil {
				Infra("executable: %v", err)
			}
			cmd = exec.CommandContext(ctx, self, append([]string{path}, args...)...)
			cmd.Env = append(os.Environ(), "VERIF_EXEC_FSIZE="+strconv.FormatInt(o.FSize-1, 10))
		} else {
			cmd = exec.CommandContext(ctx, path, args...)
			cmd.Env = os.Environ()
		}
		cmd.Env = append(cmd.Env, "PATH="+x.BinDir+":"+os.Getenv("PATH"))
		cmd.Env = append(cmd.Env, o.Env...)
		cmd.Dir = o.Dir
		if cmd.Dir == "" {
			cmd.Dir = x.Dir()
		}
		so, se := &capped{stop: cancel}, &capped{stop: cancel}
		cmd.Stdout, cmd.Stderr = so, se
		cmd.WaitDelay = 2 * time.Second
		err := cmd.Start()
		if err == nil {
			LimitMemory(cmd.Process.Pid)
			err = cmd.Wait()
		}
		endless := so.over || se.over
		timedOut := ctx.Err() != nil && !endless
		cancel()
		r := ToolResult{Stdout: so.buf.String(), Stderr: se.buf.String()}
		if err != nil {
			ee, ok := err.(*exec.ExitError)
			if !ok {
				if timedOut || endless {
					r.Code, r.Crashed = -1, true
				} else {
					Infra("running %s: %v", name, err)
				}
			} else {
				r.Code = ee.ExitCode()
			}
		}
		if timedOut {
			if attempt == 0 { // believe a hang only when it repeats
				to *= 2
				continue
			}
			r.Stderr += "\n(timed out)"
			r.Crashed = true
			r.Code = -1
		}
		if endless {
			r.Stderr += "\n(stopped: its output does not end)"
			r.Crashed = true
			r.Code = -1
		}
		if r.Code == -1 || r.Code == 2 && (bytes.Contains(se.buf.Bytes(), []byte("\ngoroutine ")) || bytes.Contains(se.buf.Bytes(), []byte("panic:"))) {
			r.Crashed = true
		}
		return r
	}
}

// Tail shortens output for messages.
func Tail(s string) string {
	if len(s) > 600 {
		return "..." + s[len(s)-600:]
	}
	return s
}

// Loopback is a loopback address that no other process of the check uses, so
// that nobody takes over the ports that this one has given up.
func Loopback() string {
	pid := os.Getpid()
	host := fmt.Sprintf("127.%d.%d.%d", 64+pid>>16&63, pid>>8&255, pid&255)
	if pid&255 == 0 || pid&255 == 255 {
		host = fmt.Sprintf("127.%d.%d.%d", 128+pid>>16&63, pid>>8&255, 128)
	}
	l, err := net.Listen("tcp", host+":0")
	if err != nil {
		return "127.0.0.1"
	}
	l.Close()
	return host
}
