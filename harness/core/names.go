package core

import (
	"strings"

	"pgregory.net/rapid"
)

// nameParts are what names of files are made of: what shells, patterns of file
// names, formats and markup treat specially, among ordinary letters.
var nameParts = []string{"a", "Part", "7", "-", "_", ".", " ", "  ", "'", "\"", "$", "$HOME", "`", "\\", "!", "#", "&", "&amp;", "(", ")", "*", "?", "[", "]", "[2]", "{", "}", "{a,b}", ";", "<", ">", "|", "~", "^", "=", "+", ",", ":", "@", "%", "%d", "%s", "%%", "é", "模", "\t", ".stl", ".binvox", ".svx", "\\n", "$(x)", "''"}

// GenName draws the name of a file (without what is excluded) that is no
// option and no directory.
func GenName(t *rapid.T, exclude string) string {
	var parts []string
	for range rapid.IntRange(1, 5).Draw(t, "parts") {
		parts = append(parts, rapid.SampledFrom(nameParts).Draw(t, "part"))
	}
	if rapid.Bool().Draw(t, "one") { // of which only one is special
		parts = append([]string{"", "a"}[:rapid.IntRange(1, 2).Draw(t, "before")], parts[0], "b")
	}
	s := ""
	for _, p := range parts {
		if exclude == "" || !strings.ContainsAny(p, exclude) {
			s += p
		}
	}
	s = strings.TrimLeft(s, "-")
	if strings.Trim(s, ".") == "" {
		return "x" + s
	}
	return s
}

// Names returns a name with each of the special parts at its start and in it.
func Names() (out []string) {
	for _, p := range nameParts {
		if p != "-" {
			out = append(out, p+"b")
		}
		out = append(out, "a"+p+"b")
	}
	return out
}
