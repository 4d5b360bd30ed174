package main

import (
	"strings"

	"urnverif/model"
)

// The spaces: finite families of inputs, each enumerated completely.

var allModes = []model.Mode{model.M2141, model.M7643, model.M8141}

func hasClassRejected(t *model.Table, s int, b byte) bool { return t.Next[s][b] < 0 }

// spaceW is the transition-cover space (W-method): every state of the model, every
// byte, every word of class representatives up to length k, every characterizing suffix.
func (e *Env) spaceW(m model.Mode, k, reps int) []Task {
	t := e.tabs[m]
	w, blocks := t.Characterize()
	e.mu.Lock()
	e.stats.Extra["wmethod_"+m.String()] = map[string]int{"states": len(t.States), "equivalence_classes": blocks,
		"byte_classes": len(t.Classes), "characterizing_words": len(w), "extra_states": k}
	e.mu.Unlock()
	var alpha []byte
	for _, c := range t.Classes {
		alpha = append(alpha, c[0])
		if reps > 1 && len(c) > 1 {
			alpha = append(alpha, c[len(c)-1])
		}
	}
	var tasks []Task
	for si := range t.States {
		si := si
		tasks = append(tasks, Task{Space: "W-method " + m.String(), Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
			var buf []byte
			base := append([]byte(nil), t.Access[si]...)
			emit(base)
			for b := 0; b < 256; b++ {
				kk := k
				if t.Next[si][b] < 0 {
					kk = 0
				}
				words(alpha, kk, func(x []byte) {
					for _, suf := range w {
						buf = append(append(append(append(buf[:0], base...), byte(b)), x...), suf...)
						emit(buf)
					}
				})
			}
		}})
	}
	return tasks
}

// words calls f with every word of length 0..k over the alphabet, shortest first.
func words(alpha []byte, k int, f func([]byte)) {
	for n := 0; n <= k; n++ {
		buf := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			if i == n {
				f(buf)
				return
			}
			for _, c := range alpha {
				buf[i] = c
				rec(i + 1)
			}
		}
		rec(0)
	}
}

func tokenWords(toks []string, k int, f func([]byte)) {
	for n := 0; n <= k; n++ {
		tokenWordsN(toks, n, f)
	}
}

func tokenWordsN(toks []string, n int, f func([]byte)) {
	var rec func(i int, buf []byte)
	rec = func(i int, buf []byte) {
		if i == n {
			f(buf)
			return
		}
		for _, c := range toks {
			rec(i+1, append(buf, c...))
		}
	}
	rec(0, make([]byte, 0, 64))
}

// contexts are words that lead to the start of a part.
var contexts = map[model.Mode][]string{
	model.M2141: {"", "urn:", "urn:u", "urn:ur", "urn:urn", "urn:a:", "urn:ab:c", "urn:ab:%4", "urn:ab:c%4B"},
	model.M7643: {"", "urn:", "urn:ietf:", "urn:ietf:params:scim:", "urn:ietf:params:scim:api:", "urn:ietf:params:scim:schemas:n", "urn:ietf:params:scim:param:n:", "urn:ietf:params:scim:api:n:o%4B"},
	model.M8141: {"", "urn:", "urn:u", "urn:urn", "urn:urn-", "urn:ab:", "urn:ab:c", "urn:ab:c?", "urn:ab:c?+", "urn:ab:c?+r", "urn:ab:c?+r?=", "urn:ab:c?=", "urn:ab:c?=q", "urn:ab:c?+r?=q", "urn:ab:c#", "urn:ab:c?+r?=q#f", "urn:ab:c?+%4B"},
}

var tokens = map[model.Mode][]string{
	model.M2141: {"a", "Z", "0", "-", ":", "%", "%4b", "%C3", "u", "urn", "/", "?", "#", "+", "=", "~", "\x00", "\x80", " ", "\n"},
	model.M7643: {"a", "Z", "0", "-", ":", "%", "%4b", "%C3", "schemas", "api", "param", "/", "?", "ietf:", "params:", "scim:", "_", "\x00", "\xff", " "},
	model.M8141: {"a", "Z", "0", "-", ":", "%", "%4b", "%C3", "?", "+", "=", "?+", "?=", "#", "/", "~", "&", "urn", "urn-", "\x00", "\xff", " "},
}

// spaceTokens: every word of up to depth tokens from every context.
func spaceTokens(m model.Mode, depth int) []Task {
	var tasks []Task
	for _, ctx := range contexts[m] {
		ctx := ctx
		// One task for the short words, and one per first token for the others
		tasks = append(tasks, Task{Space: "token words " + m.String(), Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
			var buf []byte
			tokenWords(tokens[m], depth-1, func(x []byte) {
				buf = append(append(buf[:0], ctx...), x...)
				emit(buf)
			})
		}})
	}
	for _, ctx := range contexts[m] {
		for _, t0 := range tokens[m] {
			pre := ctx + t0
			tasks = append(tasks, Task{Space: "token words " + m.String(), Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
				var buf []byte
				tokenWordsN(tokens[m], depth-1, func(x []byte) {
					buf = append(append(buf[:0], pre...), x...)
					emit(buf)
				})
			}})
		}
	}
	return tasks
}

// spaceBytes: every byte string up to length n, from nothing and after a few contexts.
func spaceBytes(n int) []Task {
	var tasks []Task
	for _, ctx := range []string{"", "u", "ur", "urn", "URN:", "urn:a", "urn:a:", "urn:ab:b", "urn:ab:%", "urn:ab:b?", "urn:ab:b?+a", "urn:ab:b?=", "urn:ab:b#", "urn:ab:b?+a?=", "urn:ietf:params:scim:api:n", "urn:ietf:params:scim:api:n:"} {
		ctx := ctx
		for b := 0; b < 256; b += 32 {
			b := b
			tasks = append(tasks, Task{Space: "all byte strings", Run: func(emit func([]byte)) {
				var buf []byte
				if b == 0 {
					emit([]byte(ctx))
				}
				for c := b; c < b+32; c++ {
					for l := 0; l < n; l++ {
						total := 1
						for i := 0; i < l; i++ {
							total *= 256
						}
						for x := 0; x < total; x++ {
							buf = append(append(buf[:0], ctx...), byte(c))
							for i, y := 0, x; i < l; i++ {
								buf = append(buf, byte(y))
								y >>= 8
							}
							emit(buf)
						}
					}
				}
			}})
		}
	}
	return tasks
}

// seeds are representative inputs, most of them valid in one mode or more.
var seeds = []string{
	"urn:a:b", "URN:A:B", "uRn:foo-bar:a123,456", "urn:uab:x", "urn:usa:x", "urn:urx:x", "urn:urna:x", "urn:u:u", "urn:ur:n",
	"urn:foo:a%2Cb%3a%Ff", "urn:0a-9:()+,-.:=@;$_!*'", "urn:" + strings.Repeat("a", 31) + ":x", "urn:" + strings.Repeat("a", 32) + ":x",
	"urn:" + strings.Repeat("a", 33) + ":x", "urn:a-:b", "urn:a--b:c",
	"urn:ietf:params:scim:schemas:core:2.0:User", "URN:ietf:params:scim:api:messages:2.0%3A:x", "urn:ietf:params:scim:param:n", "urn:ietf:params:scim:schemas:n:%aB%Cd",
	"urn:ab:c?+r", "urn:ab:c?=q", "urn:ab:c#f", "urn:ab:c?+r?=q", "urn:ab:c?+r#f", "urn:ab:c?=q#f", "urn:ab:c?+r?=q#f", "urn:ab:c#",
	"URN:aB:c/d~&?+R/r?r%4B?=Q/q?q%4b#F/f?f%4C", "urn:example:foo-bar-baz-qux?+CCResolve:cc=uk", "urn:example:weather?=op=map&lat=39.56&lon=-104.85&datetime=1969-07-21T02:56:15Z",
	"urn:example:1/406/47452/2", "urn:urn-1:x", "urn:urn-10:x", "urn:urn-a:x", "urn:urn-0:x", "urn:urn--a:x", "urn:ab:c?+r?=/x", "urn:ab:c?+r?+/x?=q?=/y",
	"urn:example:%D0%B0123,z456/foo", "urn:ab:c?+r?=?=q", "urn:ab:?+r", "urn:ab:c?+", "urn:ab:c?=", "urn:ab:c?+?+a", "urn:ab:c?=?=a", "urn:urn:x", "urn::x", "urn:a:",
}

// spaceNeighbours: everything at edit distance one from the seeds (all bytes), and at distance two with a small alphabet.
func spaceNeighbours(list []string, two bool, alpha string) []Task {
	var tasks []Task
	for _, s := range list {
		s := s
		tasks = append(tasks, Task{Space: "edit neighbours", Run: func(emit func([]byte)) {
			emit([]byte(s))
			edits1([]byte(s), nil, emit)
		}})
		if two && len(s) <= 60 {
			for p := 0; p <= len(s); p++ {
				p := p
				tasks = append(tasks, Task{Space: "edit neighbours at distance two", Run: func(emit func([]byte)) {
					a := []byte(alpha)
					editsAt([]byte(s), p, a, func(x []byte) {
						y := append([]byte(nil), x...)
						for q := p; q <= len(y); q++ {
							editsAt(y, q, a, emit)
						}
					})
				}})
			}
		}
	}
	return tasks
}

var all256 = func() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}()

// edits1 emits every insertion, deletion, substitution and swap.
func edits1(s []byte, alpha []byte, emit func([]byte)) {
	if alpha == nil {
		alpha = all256
	}
	for p := 0; p <= len(s); p++ {
		editsAt(s, p, alpha, emit)
	}
}

func editsAt(s []byte, p int, alpha []byte, emit func([]byte)) {
	buf := make([]byte, 0, len(s)+2)
	for _, c := range alpha {
		buf = append(append(append(buf[:0], s[:p]...), c), s[p:]...)
		emit(buf)
	}
	if p < len(s) {
		for _, c := range alpha {
			if c != s[p] {
				buf = append(buf[:0], s...)
				buf[p] = c
				emit(buf)
			}
		}
		buf = append(append(buf[:0], s[:p]...), s[p+1:]...)
		emit(buf)
	}
	if p+1 < len(s) && s[p] != s[p+1] {
		buf = append(buf[:0], s...)
		buf[p], buf[p+1] = buf[p+1], buf[p]
		emit(buf)
	}
}

func pumpLens(thorough bool) []int {
	var ls []int
	max := 300
	if thorough {
		max = 1100
	}
	for i := 0; i <= max; i++ {
		ls = append(ls, i)
	}
	top := 16
	if thorough {
		top = 17
	}
	for k := 8; k <= top; k++ {
		for d := -2; d <= 2; d++ {
			if v := 1<<k + d; v > max {
				ls = append(ls, v)
			}
		}
	}
	for _, v := range []int{500, 512, 999, 1000, 1001, 10000} {
		if v > max {
			ls = append(ls, v)
		}
	}
	return ls
}

// Pumped families: a context, a repeated token, an ending.
type pump struct {
	ctx  string
	toks []string
	ends []string
}

var pumps = map[model.Mode][]pump{
	model.M2141: {
		{"urn:", []string{"a", "A", "0", "a-"}, []string{":b", "", "-:b", ":b%2C"}},
		{"urn:ab:", []string{"a", "Z", ":", "%aB", "%AB", "%ab", "a%CdE", "-", "urn:"}, []string{"", "x", "%", "%a", "\x00", "/", " ", "%AB"}},
		{"urn:" + strings.Repeat("n", 31) + ":", []string{"a", "%aB"}, []string{"", "x", "?"}},
	},
	model.M7643: {
		{"urn:ietf:params:scim:schemas:", []string{"a", "Z", "0"}, []string{"", ":o", ":", "-", ":%AB"}},
		{"urn:ietf:params:scim:api:n:", []string{"a", "Z", ":", "%aB", "%AB", "a%CdE", "-"}, []string{"", "x", "%", "%a", "\x00", "/", "%AB"}},
	},
	model.M8141: {
		{"urn:", []string{"a", "A", "0", "a-", "a--"}, []string{":b", "", "-:b", "a:b"}},
		{"urn:ab:", []string{"a", "Z", ":", "%aB", "%AB", "a%CdE", "a/", "~", "&"}, []string{"", "x", "%", "%a", "\x00", "/", "?+r", "?=q", "#f", "?+r?=q#f", " ", "?"}},
		{"urn:ab:c?+", []string{"a", "%aB", "%AB", "a/", "a?", "r?=/", "a?+/", "Z"}, []string{"", "x", "%", "\x00", "?=q", "#f", "?=q#f", "?", "?+x", " "}},
		{"urn:ab:c?=", []string{"a", "%aB", "%AB", "a/", "a?", "q?=/", "Z"}, []string{"", "x", "%", "\x00", "#f", "?", "?=x", "?+x", " "}},
		{"urn:ab:c?+r?=", []string{"a", "%aB", "q?=/", "a?"}, []string{"", "x", "%", "\x00", "#f", "?=x", "?+x"}},
		{"urn:ab:c#", []string{"a", "%aB", "/", "?", "%AB"}, []string{"", "x", "%", "\x00", "#"}},
	},
}

// Ends that are easily taken for none.
var oddEnds = []string{"\n", "\r\n", " ", "\t", "?", "#", ":", "~", "\xff", "\"", "."}

// spacePump: every loop of the grammar, taken every number of times in a list of lengths.
func (e *Env) spacePump(modes []model.Mode, extra []int) []Task {
	var tasks []Task
	lens := append(pumpLens(e.Thorough), extra...)
	most := 2100 // up to which every total length is tried
	if e.Thorough {
		most = 4500
	}
	for _, m := range modes {
		for _, p := range pumps[m] {
			for j, tok := range p.toks {
				p, j, tok := p, j, tok
				tasks = append(tasks, Task{Space: "pumped loops", Modes: nil, Run: func(emit func([]byte)) {
					var buf []byte
					for _, n := range lens {
						if n*len(tok) > 400000 {
							continue
						}
						buf = append(buf[:0], p.ctx...)
						for i := 0; i < n; i++ {
							buf = append(buf, tok...)
						}
						l := len(buf)
						for _, end := range p.ends {
							buf = append(buf[:l], end...)
							emit(buf)
						}
					}
				}})
				tasks = append(tasks, Task{Space: "total lengths", Modes: nil, Run: func(emit func([]byte)) {
					var buf []byte
					total := func(n int, end string) {
						room := n - len(p.ctx) - len(end)
						if room < 0 || n > 400000 {
							return
						}
						buf = append(buf[:0], p.ctx...)
						for i := 0; i < room/len(tok); i++ {
							buf = append(buf, tok...)
						}
						for len(buf) < n-len(end) {
							buf = append(buf, 'a')
						}
						emit(append(buf, end...))
					}
					for _, n := range lens {
						for i, end := range p.ends {
							if n > 300 && (j == 0 || i < 4) {
								total(n, end)
							}
						}
					}
					for _, n := range lens {
						for _, end := range oddEnds {
							if n > 300 && j == 0 {
								total(n, end)
							}
						}
					}
					for n := 301; j == 0 && n <= most; n++ {
						for i, end := range p.ends {
							if i < 2 || i == len(p.ends)-1 {
								total(n, end)
							}
						}
					}
				}})
			}
		}
	}
	return tasks
}

// Loops after which every short word of openings and odd tokens follows.
var mixLoops = map[model.Mode][][2]string{
	model.M2141: {{"urn:", "n"}, {"urn:ab:", "a"}, {"urn:ab:", "%AB"}, {"urn:ab:", "Z:"}},
	model.M7643: {{"urn:ietf:params:scim:schemas:", "n"}, {"urn:ietf:params:scim:api:n:", "a"}, {"urn:ietf:params:scim:param:n:", "%AB"}},
	model.M8141: {{"urn:", "n"}, {"urn:ab:", "a"}, {"urn:ab:", "%AB"}, {"urn:ab:c?+", "a"}, {"urn:ab:c?+", "%AB"}, {"urn:ab:c?+", "a?"}, {"urn:ab:c?=", "a"}, {"urn:ab:c?=", "%AB"}, {"urn:ab:c?+r?=", "a"}, {"urn:ab:c#", "a"}, {"urn:ab:c?+r?=q#", "%AB"}},
}

var mixTokens = map[model.Mode][]string{
	model.M2141: {":", "b", "Z", "%4B", "%", "-", "/", "?", "urn:", "\x00"},
	model.M7643: {":", "b", "Z", "%4B", "%", "-", "_", "/", "\x00"},
	model.M8141: {":", "b", "Z", "%4B", "%", "-", "/", "?", "~", "?+", "?=", "?+r", "?=q", "#", "#f", "\x00"},
}

// spaceMix: every loop of the grammar taken many times, then every short word.
func (e *Env) spaceMix(modes []model.Mode, light bool) []Task {
	var tasks []Task
	all, deep, deepest := 300, 2, 3
	if light {
		all, deepest = 80, 2
	}
	if e.Thorough {
		all, deepest = all*2, deepest+1
	}
	list := []int{17, 33, 41, 65, 101, 129, 257, 1025, 4097}
	for _, m := range modes {
		for _, l := range mixLoops[m] {
			m, l := m, l
			add := func(n, k int) {
				tasks = append(tasks, Task{Space: "loops and then words", Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
					buf := []byte(l[0] + strings.Repeat(l[1], n))
					base := len(buf)
					tokenWords(mixTokens[m], k, func(x []byte) {
						buf = append(buf[:base], x...)
						emit(buf)
					})
				}})
			}
			for n := 1; n <= all; n++ {
				if n > 40 && l[0] == "urn:" {
					break
				}
				add(n, deep)
			}
			for _, n := range list {
				if n > 40 && l[0] == "urn:" {
					break
				}
				add(n, deepest)
			}
		}
	}
	// The lengths of the parts against each other
	lens := []int{1, 2, 3, 8, 17, 33, 40, 64, 100, 257}
	nids := []int{2, 3, 8, 31, 32}
	if light {
		lens = []int{1, 2, 17, 41, 100}
		nids = []int{2, 17, 32}
	}
	for _, m := range modes {
		for _, n := range nids {
			m, n := m, n
			tasks = append(tasks, Task{Space: "product of the lengths", Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
				var buf []byte
				if m == model.M7643 {
					for _, t := range []string{"schemas", "api", "param"} {
						for nn := 1; nn <= 70; nn++ {
							for _, k := range lens {
								buf = append(append(buf[:0], "urn:ietf:params:scim:"+t+":"...), strings.Repeat("n", nn)...)
								buf = append(append(buf, ':'), strings.Repeat("oP%4B", k)[:k]...)
								emit(buf)
							}
						}
					}
					return
				}
				parts := func(from int, opening string, next func()) {
					base := len(buf)
					next()
					for _, k := range lens {
						buf = append(buf[:base], opening...)
						for i := 0; i < k; i++ {
							buf = append(buf, "aZ7:"[(i+from)%4])
						}
						next()
					}
					buf = buf[:base]
				}
				for _, k := range lens {
					buf = append(append(buf[:0], "urn:"...), strings.Repeat("aZ7b", 8)[:n]...)
					buf = append(append(buf, ':'), strings.Repeat("s%4BZ", 60)[:k]...)
					for len(buf) > 0 && (buf[len(buf)-1] == '%' || buf[len(buf)-2] == '%') {
						buf = append(buf, 'F')
					}
					if m == model.M2141 {
						emit(buf)
						continue
					}
					parts(0, "?+", func() {
						parts(1, "?=", func() {
							parts(2, "#", func() { emit(buf) })
						})
					})
				}
			}})
		}
	}
	return tasks
}

// spacePairs: features of two parts together, and every two bytes in two parts.
func (e *Env) spacePairs(modes []model.Mode, light bool) []Task {
	var tasks []Task
	nidLens := []int{1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 24, 30, 31, 32}
	chars := "aZ09()+,-.:=@;$_!*'~&/"
	hexes := "09afAFzZ"
	rs, qs, fs := []string{"", "?+r", "?+R%4B", "?+a?=/b", "?++"}, []string{"", "?=q", "?=Q%4b", "?=a?+b"}, []string{"", "#", "#f%4B"}
	if light {
		nidLens = []int{1, 2, 16, 32}
		hexes = "0aFZ"
		rs, qs, fs = rs[:3], qs[:2], fs[1:2]
	}
	var nids, nsss []string
	for _, l := range nidLens {
		for _, pat := range []string{"a", "Z", "aZ", "Za", "0", "a0-", "x--", "u", "urn-"} {
			if light && len(pat) > 2 {
				continue
			}
			nids = append(nids, strings.Repeat(pat, l)[:l])
		}
	}
	for _, c := range chars {
		nsss = append(nsss, string(c), "b"+string(c)+"B", string(c)+"%4b"+string(c), "%C3"+string(c))
	}
	for _, a := range hexes {
		for _, b := range hexes {
			nsss = append(nsss, "%"+string(a)+string(b), "x%"+string(a)+string(b)+"Y")
		}
	}
	for _, l := range []int{2, 3, 5, 7, 9, 12, 31, 40, 80} {
		nsss = append(nsss, strings.Repeat("aB", l), strings.Repeat("%4B", l), strings.Repeat("a:", l))
	}
	for _, m := range modes {
		if m == model.M7643 {
			continue
		}
		for _, nid := range nids {
			m, nid := m, nid
			tasks = append(tasks, Task{Space: "features of two parts", Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
				var buf []byte
				for _, nss := range nsss {
					if m == model.M2141 {
						for _, pre := range []string{"urn:", "URN:", "uRn:"} {
							buf = append(append(append(append(buf[:0], pre...), nid...), ':'), nss...)
							emit(buf)
						}
						continue
					}
					for _, r := range rs {
						for _, q := range qs {
							for _, f := range fs {
								buf = append(append(append(append(append(append(append(buf[:0], "urn:"...), nid...), ':'), nss...), r...), q...), f...)
								emit(buf)
							}
						}
					}
				}
			}})
		}
	}
	// Two holes each
	holes := map[model.Mode][][3]string{
		model.M2141: {{"urn:", "b:", ""}, {"urn:a", ":x", ""}, {"urn:ab:", "%", "B"}, {"urn:ab:x", "yy", ""}, {"urn:u", "n:", "x"}},
		model.M7643: {{"urn:ietf:params:scim:api:", "n:", ""}, {"urn:ietf:params:scim:api:n", ":", "%4B"}, {"urn:ietf:params:scim:param:n:x", "%4", ""}},
		model.M8141: {{"urn:", "b:", ""}, {"urn:a", "b:x", "?=q"}, {"urn:ab:", "?+", ""}, {"urn:ab:c", "?=", "q"}, {"urn:ab:c?+", "?=", ""}, {"urn:ab:c?+r", "?=q", "#f"}, {"urn:ab:c?=", "#", ""}, {"urn:ab:c?=q", "x", "#"}, {"urn:ab:c#", "/", ""}, {"urn:ab:c", "#", ""}, {"urn:ab:c?+r", "#f", ""}, {"urn:urn-", ":x", ""}, {"urn:urn", "1", ":x"}},
	}
	for _, m := range modes {
		for _, h := range holes[m] {
			m, h := m, h
			step := 32
			for from := 0; from < 256; from += step {
				from := from
				tasks = append(tasks, Task{Space: "every two bytes in two parts", Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
					var buf []byte
					for a := from; a < from+step; a++ {
						if light && a > 127 && a != 0xC3 {
							continue
						}
						for b := 0; b < 256; b++ {
							if light && b > 127 && b != 0xA9 {
								continue
							}
							buf = append(append(append(append(append(buf[:0], h[0]...), byte(a)), h[1]...), byte(b)), h[2]...)
							emit(buf)
						}
					}
				}})
			}
		}
	}
	return tasks
}

// spaceLong: one odd byte at every position of long inputs, one encoding at every position and count.
func (e *Env) spaceLong() []Task {
	var tasks []Task
	n := 140
	if e.Thorough {
		n = 700
	}
	bases := []string{"urn:ab:" + strings.Repeat("a", n), "urn:ab:c?+" + strings.Repeat("a", n), "urn:ab:c?=" + strings.Repeat("a", n), "urn:ab:c#" + strings.Repeat("a", n),
		"urn:ietf:params:scim:api:" + strings.Repeat("a", n), "urn:ietf:params:scim:api:n:" + strings.Repeat("a", n)}
	for _, b := range bases {
		b := b
		tasks = append(tasks, Task{Space: "one odd byte in long inputs", Run: func(emit func([]byte)) {
			buf := []byte(b)
			for p := len(b) - n; p < len(b); p++ {
				for c := 0; c < 256; c++ {
					buf[p] = byte(c)
					emit(buf)
				}
				buf[p] = b[p]
			}
		}})
		tasks = append(tasks, Task{Space: "one token at every position of long inputs", Run: func(emit func([]byte)) {
			for _, tok := range []string{"%aB", "%AB", "%ab", "%A", "?+", "?=", "?+x", "?=x", "#", "#x", "?+/", "?=/", ":", "/", "%Zz%0A%b9"} {
				for p := len(b) - n; p <= len(b); p++ {
					emit([]byte(b[:p] + tok + b[p:]))
				}
			}
		}})
	}
	// Many encodings, each letter case pattern at one position
	tasks = append(tasks, Task{Space: "one upper-case letter among many encodings", Run: func(emit func([]byte)) {
		k := 80
		if e.Thorough {
			k = 400
		}
		for _, pre := range []string{"urn:ab:", "urn:ab:x", "urn:ietf:params:scim:api:n:"} {
			for total := 1; total <= k; total++ {
				if total > 40 && total%13 != 0 {
					continue
				}
				lower := strings.Repeat("%ab", total)
				upper := strings.Repeat("%AB", total)
				for i := 0; i < total; i++ {
					for d := 1; d <= 2; d++ {
						b := []byte(pre + lower)
						b[len(pre)+3*i+d] -= 32
						emit(b)
						b = []byte(pre + upper)
						b[len(pre)+3*i+d] += 32
						emit(b)
					}
				}
			}
		}
	}})
	return tasks
}

// Slots of a URN for the product space.
var slotPrefix = []string{"urn", "URN", "uRn", "urN"}
var slotNID = []string{"ab", "A-b", "a", "u", "urn-7", "uab", "x0", "Aa--9", "ietf", strings.Repeat("N", 32)}
var slotNSS = []string{"b", "B%4Bc", "%aF", "%Ff%0A", "a:b", "a/b", "~", "(+)=@", "%zZ1", "aB%c3%A9Cd", "-.:", "%25%2F%3F", "x%4a/y:%4B"}
var slotR = []string{"", "?+r", "?+R%4B", "?+a/b?c", "?+a?=", "?+a?=/b", "?+=", "?+a?+/", "?+%41", "?++", "?+a??", "?+:~&"}
var slotQ = []string{"", "?=q", "?=Q%4b", "?=a/b?c", "?=%41", "?==", "?=+", "?=a?+b", "?=a?=/", "?=a?", "?=q=1&r=2", "?=~:"}
var slotF = []string{"", "#", "#f", "#/", "#?", "#F%4B", "#%4b", "#?+r?=q", "#a/b?c"}
var scimTypes = []string{"schemas", "api", "param", "Schemas", "apis", ""}
var scimNames = []string{"n", "Core", "0", "n-m", "", "A1b2"}
var scimOthers = []string{"", ":o", ":2.0:User", ":%aB", ":%AB%cd:E", ":", "::", ":a-b_c", ":(a)", ":x:y:z", ":%zZ"}

func spaceProduct() []Task {
	var tasks []Task
	for _, nid := range slotNID {
		for _, nss := range slotNSS {
			nid, nss := nid, nss
			tasks = append(tasks, Task{Space: "product of the parts", Run: func(emit func([]byte)) {
				for _, pre := range slotPrefix {
					for _, r := range slotR {
						for _, q := range slotQ {
							for _, f := range slotF {
								emit([]byte(pre + ":" + nid + ":" + nss + r + q + f))
							}
						}
					}
				}
			}})
		}
	}
	tasks = append(tasks, Task{Space: "product of the SCIM parts", Run: func(emit func([]byte)) {
		for _, pre := range []string{"urn", "URN", "uRn", "urN", "Urn", "uRN", "UrN", "URn"} {
			for _, t := range scimTypes {
				for _, n := range scimNames {
					for _, o := range scimOthers {
						emit([]byte(pre + ":ietf:params:scim:" + t + ":" + n + o))
						emit([]byte(pre + ":IETF:params:scim:" + t + ":" + n + o))
						emit([]byte(pre + ":ietf:Params:SCIM:" + t + ":" + n + o))
					}
				}
			}
		}
	}})
	return tasks
}

// spaceHex: every two bytes after a percent sign, in every part.
func spaceHex() []Task {
	var tasks []Task
	for _, c := range [][2]string{{"urn:ab:%", ""}, {"urn:ab:x%", "y"}, {"urn:ab:%4B%", ""}, {"urn:ab:c?+%", "z"}, {"urn:ab:c?=%", "z"}, {"urn:ab:c?+r?=%", ""}, {"urn:ab:c#%", ""}, {"urn:ab:c?+r%", "?=q"}, {"urn:ietf:params:scim:api:n:%", "z"}, {"urn:ietf:params:scim:api:n:%", ""}} {
		c := c
		for h := 0; h < 256; h += 64 {
			h := h
			tasks = append(tasks, Task{Space: "every two bytes after a percent sign", Run: func(emit func([]byte)) {
				var buf []byte
				for a := h; a < h+64; a++ {
					for b := 0; b < 256; b++ {
						buf = append(append(append(buf[:0], c[0]...), byte(a), byte(b)), c[1]...)
						emit(buf)
					}
				}
			}})
		}
	}
	return tasks
}

// spaceNIDs: every identifier up to length n over the identifier alphabet.
func spaceNIDs(n int) []Task {
	alnum := []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-")
	var tasks []Task
	for _, c := range alnum {
		c := c
		tasks = append(tasks, Task{Space: "all short identifiers", Run: func(emit func([]byte)) {
			var buf []byte
			words(alnum, n-1, func(x []byte) {
				buf = append(append(append(buf[:0], "urn:"...), c), x...)
				buf = append(buf, ":x"...)
				emit(buf)
			})
		}})
		tasks = append(tasks, Task{Space: "identifiers starting like the reserved ones", Run: func(emit func([]byte)) {
			for _, pre := range []string{"urn", "URN", "uRn", "urn-", "URN-", "uRn-", "ur", "UR", "urn--"} {
				words(alnum, n-2, func(x []byte) {
					emit([]byte("urn:" + pre + string(c) + string(x) + ":x"))
				})
			}
		}})
	}
	return tasks
}

// spaceLiterals: the literals of the code under test, in every slot, and as lengths.
func (e *Env) spaceLiterals(edits bool) []Task {
	h := harvest(false)
	ht := harvest(true)
	e.mu.Lock()
	e.stats.Extra["harvested_literals"] = map[string]int{"strings": len(h.Strings), "with_tests": len(ht.Strings), "ints": len(h.Ints)}
	e.mu.Unlock()
	var tasks []Task
	pats := [][2]string{{"", ""}, {"urn:", ":x"}, {"urn:ab:", ""}, {"urn:ab:", "x"}, {"urn:ab:x", ""}, {"urn:", ""}, {"", ":x"}, {"urn:ab", ":x"}, {"", "urn:ab:x"}, {"urn:ab:x", "y%4Bz"},
		{"urn:ab:c?+", ""}, {"urn:ab:c?+", "?=q"}, {"urn:ab:c?=", ""}, {"urn:ab:c#", ""}, {"urn:ab:c", "#f"}, {"urn:ab:c?+r", ""}, {"urn:ab:c?=q", "#f"}, {"urn:ab:c?+r?=", "#f"},
		{"urn:ietf:params:scim:", ":n"}, {"urn:ietf:params:scim:api:", ""}, {"urn:ietf:params:scim:api:n:", ""}, {"urn:ietf:params:scim:api:", ":o"}, {"urn:ietf:params:scim:param:n:x", "y"}, {"urn:ietf:params:", "api:n"}}
	for _, s := range h.Strings {
		s := s
		tasks = append(tasks, Task{Space: "source literals in every slot", Run: func(emit func([]byte)) {
			vars := []string{s, model.LowerASCII(s), strings.ToUpper(s), strings.TrimSpace(s), s + s}
			done := map[string]bool{}
			for _, v := range vars {
				if done[v] {
					continue
				}
				done[v] = true
				for _, p := range pats {
					x := p[0] + v + p[1]
					emit([]byte(x))
					if edits && len(s) <= 40 {
						edits1([]byte(x), []byte("aZ0-:%?+=#/~ \x00\x80"), emit)
					}
				}
			}
		}})
	}
	for _, s := range h.Strings {
		if len(s) > 24 {
			continue
		}
		s := s
		tasks = append(tasks, Task{Space: "pairs of source literals", Run: func(emit func([]byte)) {
			for _, t := range h.Strings {
				if len(t) > 24 {
					continue
				}
				for _, x := range []string{"urn:" + s + ":" + t, "urn:ab:" + s + t, "urn:ab:" + s + "a" + t, "urn:ab:c?+" + s + "?=" + t, "urn:ab:" + s + "?+" + t, "urn:ab:" + s + "?=" + t, "urn:ab:" + s + "#" + t,
					"urn:ab:c?=" + s + "#" + t, "urn:ietf:params:scim:api:" + s + ":" + t, "urn:ietf:params:scim:" + s + ":n:" + t} {
					emit([]byte(x))
				}
			}
		}})
	}
	for _, s := range ht.Strings {
		if len(s) > 300 {
			continue
		}
		s := s
		tasks = append(tasks, Task{Space: "literals of the tests and neighbours", Run: func(emit func([]byte)) {
			emit([]byte(s))
			if edits && strings.Contains(s, ":") {
				edits1([]byte(s), []byte("aZ0-:%?+=#/~ \x00\x80"), emit)
			}
		}})
	}
	return tasks
}

// spaceHuge: inputs of more than 128 KiB, up to 1<<top bytes: around every power of two, and every integer of the sources.
func (e *Env) spaceHuge(modes []model.Mode, top int) []Task {
	if e.Thorough {
		top += 2
	}
	set := map[int]bool{}
	for k := 18; k <= top; k++ {
		set[1<<k] = true
		set[1<<k+1] = true
	}
	for _, v := range harvest(false).Ints {
		if v > 1<<17 && v <= 1<<top+4096 && len(set) < 40 {
			set[v], set[v+1] = true, true
		}
	}
	var ts []Task
	for _, m := range modes {
		for _, ctx := range map[model.Mode][]string{
			model.M2141: {"urn:ab:"},
			model.M7643: {"urn:ietf:params:scim:schemas:", "urn:ietf:params:scim:api:n:"},
			model.M8141: {"urn:ab:", "urn:ab:c?+", "urn:ab:c?+r?=", "urn:ab:c#"},
		}[m] {
			for _, tok := range []string{"aZ", "%AB"} {
				for n := range set {
					ctx, tok, n := ctx, tok, n
					if tok == "%AB" && strings.HasSuffix(ctx, "schemas:") {
						continue
					}
					ts = append(ts, Task{Space: "huge inputs", Modes: []model.Mode{m}, Run: func(emit func([]byte)) {
						b := append(make([]byte, 0, n+8), ctx...)
						for len(b)+len(tok) <= n {
							b = append(b, tok...)
						}
						for len(b) < n {
							b = append(b, 'x')
						}
						emit(b)
						b[n-1] = ' '
						emit(b)
					}})
				}
			}
		}
	}
	return ts
}

func (e *Env) extraLens() []int {
	var ls []int
	for _, i := range harvest(false).Ints {
		for d := -1; d <= 1; d++ {
			if v := i + d; v > 300 && v <= 1<<17 {
				ls = append(ls, v)
			}
		}
	}
	if len(ls) > 200 {
		ls = ls[:200]
	}
	return ls
}

// standard is the union of the spaces used by the per-input properties.
func (e *Env) standard(modes []model.Mode) []Task {
	var ts []Task
	k, depth := 1, 4
	if e.Thorough {
		k, depth = 2, 5
	}
	ts = append(ts, spaceNeighbours(seeds, false, "")...)
	ts = append(ts, spaceProduct()...)
	ts = append(ts, e.spaceLiterals(true)...)
	ts = append(ts, spaceHex()...)
	ts = append(ts, spaceWorld()...)
	ts = append(ts, e.spaceHuge(modes, 22)...)
	ts = append(ts, spaceAround(true)...)
	nids := 3
	if e.Thorough {
		nids = 4
	}
	ts = append(ts, spaceNIDs(nids)...)
	for _, m := range modes {
		ts = append(ts, e.spaceW(m, k, 1)...)
	}
	ts = append(ts, e.spacePump(modes, e.extraLens())...)
	ts = append(ts, e.spaceLong()...)
	ts = append(ts, e.spaceMix(modes, false)...)
	ts = append(ts, e.spacePairs(modes, false)...)
	for _, m := range modes {
		ts = append(ts, spaceTokens(m, depth)...)
	}
	if e.Thorough {
		ts = append(ts, spaceBytes(3)...)
		ts = append(ts, spaceNeighbours(seeds, true, "aZ0-:%?+=#/~ ")...)
	} else {
		ts = append(ts, spaceBytes(2)...)
	}
	return ts
}

// light is a smaller union, for the properties whose check costs more per input.
func (e *Env) light(modes []model.Mode) []Task {
	var ts []Task
	k, depth, nids := 0, 3, 2
	if e.Thorough {
		k, depth, nids = 1, 4, 3
	}
	ts = append(ts, spaceNeighbours(seeds, false, "")...)
	ts = append(ts, spaceProduct()...)
	ts = append(ts, e.spaceLiterals(true)...)
	ts = append(ts, spaceHex()...)
	ts = append(ts, spaceWorld()...)
	ts = append(ts, e.spaceHuge(modes, 20)...)
	ts = append(ts, spaceAround(e.Thorough)...)
	ts = append(ts, spaceNIDs(nids)...)
	for _, m := range modes {
		ts = append(ts, e.spaceW(m, k, 1)...)
	}
	ts = append(ts, e.spacePump(modes, e.extraLens())...)
	ts = append(ts, e.spaceLong()...)
	ts = append(ts, e.spaceMix(modes, true)...)
	ts = append(ts, e.spacePairs(modes, true)...)
	for _, m := range modes {
		ts = append(ts, spaceTokens(m, depth)...)
	}
	ts = append(ts, spaceBytes(2)...)
	return ts
}
