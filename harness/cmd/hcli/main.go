// hcli holds the checks that run the command-line tools.
package main

import (
	"errors"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/core"
)

func main() {
	core.Main(c15(), c16(), c17(), c18(), c20(), c21(), c22(), c24(), c25(), c27(), c28(), c30(), c31())
}

func put(x *core.Ctx, name string, b []byte) string {
	p := filepath.Join(x.Dir(), name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		core.Infra("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		core.Infra("%v", err)
	}
	return p
}

// get returns nil for a file that does not exist.
func get(x *core.Ctx, name string) []byte {
	b, err := os.ReadFile(filepath.Join(x.Dir(), name))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	if err != nil {
		core.Infra("%v", err)
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

// files lists the scratch directory (regular files, recursively).
func files(x *core.Ctx) map[string]string {
	out := map[string]string{}
	root := x.Dir()
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			core.Infra("%v", err)
		}
		if fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				core.Infra("%v", err)
			}
			out[strings.TrimPrefix(p, root+"/")] = string(b)
		}
		return nil
	})
	return out
}

// options leaves out the options that have their default values.
func options(def map[string]string, args ...string) (out []string) {
	for i := 0; i < len(args); i += 2 {
		if d, ok := def[args[i]]; !ok || d != args[i+1] {
			out = append(out, args[i], args[i+1])
		}
	}
	return out
}

var (
	dims = map[string]string{"-dim": "8192", "-nx": "8", "-ny": "8", "-nz": "1"}
	pfx  = map[string]string{"-prefix": "out"}
)

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func remove(path string) {
	if err := os.Remove(path); err != nil {
		core.Infra("%v", err)
	}
}
