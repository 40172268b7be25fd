package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var excerptHead = regexp.MustCompile(`^(\S.*) \+(\d+):(\d+)$`)
var excerptBar = regexp.MustCompile(`^ +\|$`)

// checkExcerpt checks that the source excerpts of a diagnostic are faithful:
// the quoted line is the one with the given number, and the marker starts at the given column.
// Excerpts of more than one line are checked only as far as their first line.
func checkExcerpt(stderr string, src func(path string) (string, bool)) (n int, err error) {
	ls := strings.Split(stderr, "\n")
	for i := 0; i+2 < len(ls); i++ {
		h := excerptHead.FindStringSubmatch(ls[i])
		if h == nil || !excerptBar.MatchString(ls[i+1]) {
			continue
		}
		text, ok := src(h[1])
		if !ok {
			continue
		}
		line, _ := strconv.Atoi(h[2])
		col, _ := strconv.Atoi(h[3])
		lines := strings.Split(text, "\n")
		if line < 1 || line > len(lines) {
			return n, fmt.Errorf("diagnostic names line %d of %s, which has %d lines", line, h[1], len(lines))
		}
		want := lines[line-1]
		if col < 1 || col > len(want)+1 {
			return n, fmt.Errorf("diagnostic names column %d of line %d of %s, which has %d characters", col, line, h[1], len(want))
		}
		bar := len(ls[i+1]) - 1
		num := strings.TrimSpace(ls[i+2][:min(bar, len(ls[i+2]))])
		rest := ls[i+2][min(bar, len(ls[i+2])):]
		if num != h[2] || !strings.HasPrefix(rest, "|") {
			return n, fmt.Errorf("line quoted for %s is not marked as line %s: %q", ls[i], h[2], ls[i+2])
		}
		rest = strings.TrimPrefix(strings.TrimPrefix(rest, "|"), " ")
		if rest != want {
			return n, fmt.Errorf("line quoted for %s is %q, but the line is %q", ls[i], rest, want)
		}
		n++
		if i+3 < len(ls)-1 {
			m := ls[i+3]
			if !strings.Contains(m, "^") || strings.Trim(m, " |^") != "" {
				continue // excerpt of several lines
			}
			if len(m) <= bar || m[bar] != '|' {
				return n, fmt.Errorf("bar of the marker for %s is not below the other bars", ls[i])
			}
			if at := strings.Index(m, "^") - (bar + 2) + 1; at != col {
				return n, fmt.Errorf("marker for %s is at column %d of the quoted line", ls[i], at)
			}
		}
	}
	return n, nil
}
