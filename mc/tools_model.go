package main

// The same reference models as in drivers/tool_driver.go.txt.

import (
	"bytes"
	"fmt"
)

func toolLines(b []byte) (ls [][]byte) {
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return append(ls, b)
		}
		ls = append(ls, b[:i+1])
		b = b[i+1:]
	}
	return ls
}

func toolSpaceByte(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' || c == '\n' }

func toolTrim(l []byte) []byte {
	for len(l) > 0 && toolSpaceByte(l[0]) {
		l = l[1:]
	}
	return l
}

// judgeComments: the lines of the output are the ones of the input, without the directives
// (any of the blank lines right above a directive may miss).
func judgeComments(in, out []byte) string {
	ls := toolLines(in)
	may := make([]bool, len(ls))
	must := make([]bool, len(ls)) // must go
	for i := len(ls) - 1; i >= 0; i-- {
		t := toolTrim(ls[i])
		switch {
		case bytes.HasPrefix(t, []byte("//line")):
			must[i] = true
		case len(t) == 0 && i+1 < len(ls) && (must[i+1] || may[i+1]):
			may[i] = true
		}
	}
	// The offsets of the output reached
	at := map[int]bool{0: true}
	for i, l := range ls {
		if must[i] {
			continue
		}
		next := map[int]bool{}
		for o := range at {
			if may[i] {
				next[o] = true
			}
			if bytes.HasPrefix(out[o:], l) {
				next[o+len(l)] = true
			}
		}
		at = next
	}
	if !at[len(out)] {
		return fmt.Sprintf("it leaves %q", out)
	}
	return ""
}

func toolAlnum(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9'
}

// judgeSnake: line by line, the rightmost underscore that joins two words goes, until there is none.
func judgeSnake(in, out []byte) string {
	if want := toolSnake(in); !bytes.Equal(want, out) {
		return fmt.Sprintf("it leaves %q, not %q", out, want)
	}
	return ""
}

func toolSnake(in []byte) (want []byte) {
	for _, line := range toolLines(in) {
		l := append([]byte(nil), line...)
	again:
		for i := len(l) - 2; i > 0; i-- {
			if l[i] != '_' || !toolAlnum(l[i+1]) {
				continue
			}
			j := i - 1
			for j >= 0 && '0' <= l[j] && l[j] <= '9' {
				j--
			}
			if j < 0 || l[j] < 'a' || l[j] > 'z' {
				continue
			}
			if c := l[i+1]; 'a' <= c && c <= 'z' {
				l[i+1] = c - 'a' + 'A'
			}
			l = append(l[:i], l[i+1:]...)
			goto again
		}
		want = append(want, l...)
	}
	return want
}
