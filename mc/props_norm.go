package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	urn "github.com/leodido/go-urn"

	"urnverif/model"
)

func init() {
	inputProp("U06", allModes, func(e *Env) []Task { return append(e.light(allModes), e.handSS()...) }, checkNormalize,
		"of a percent sign that begins no percent-encoding, in a specific string given by hand, what becomes of upper-case letters in the two bytes that follow is left open")
	props["U07"] = &Prop{
		Run: func(e *Env) {
			e.runHistories()
			e.exploreInputs(e.equalTasks(), allModes, checkEqualVariants)
			e.equalMatrix()
			e.finish(allModes)
		},
		Replay: func(v *Viol) string {
			e := newEnv("U07", "quick", 1, 1)
			if v.Check == "history" {
				return replayHistory("U07", v)
			}
			if v.Check == "pair" {
				return replayPair(v)
			}
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkEqualVariants)
		},
	}
}

// parallel runs f(i) for every i in [0,n).
func (e *Env) parallel(n int, f func(i int)) {
	next := e.counter()
	var wg sync.WaitGroup
	for k := 0; k < e.Workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !e.stopped() {
				i := next()
				if i >= n {
					return
				}
				if time.Now().After(e.Deadline) {
					e.mu.Lock()
					e.stats.Exhaustive = false
					e.mu.Unlock()
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// expectNorm is the view of the normal form (the kind and the SCIM view are not specified).
func expectNorm(id, ss string) View {
	v := View{ID: model.LowerASCII(id), SS: model.NormSS(ss)}
	if id != "" && ss != "" {
		v.Str = "urn:" + v.ID + ":" + v.SS
	}
	return v
}

func normView(u *urn.URN) View {
	v := view(u)
	v.Kind, v.IsSCIM, v.HasSCIM, v.Type, v.Name, v.Other, v.SCIMStr = 0, false, false, 0, "", "", ""
	return v
}

// U06
func checkNormalize(w *Worker, m model.Mode, in []byte) string {
	if ss, ok := byHand(in); ok {
		return checkHandNorm(w, ss)
	}
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	s := string(in)
	u, _ := parseM(m, in)
	if u == nil {
		return ""
	}
	p := model.Decompose(m, s)
	want := expectNorm(p.NID, p.NSS)
	if u.ID != p.NID || u.SS != p.NSS {
		return "" // the parts are another property
	}
	w.traces++
	before := view(u)
	n := u.Normalize()
	if n == u {
		return "Normalize returns its receiver"
	}
	if d := diffView(m.String()+" normal form of a parsed URN", normView(n), want); d != "" {
		return d
	}
	if d := diffView(m.String()+" the normalized URN itself", view(u), before); d != "" {
		return d
	}
	nn := n.Normalize()
	if d := diffView(m.String()+" normal form of the normal form", normView(nn), want); d != "" {
		return d
	}
	if d := diffView(m.String()+" a normal form after being normalized", normView(n), want); d != "" {
		return d
	}
	if d := diffView(m.String()+" third normal form", normView(nn.Normalize()), want); d != "" {
		return d
	}
	again, err := parseM(m, []byte(n.String()))
	if again == nil {
		return fmt.Sprintf("%s: the normal form %q is rejected: %s", m, clip(n.String()), errText(err))
	}
	if again.ID != want.ID || again.SS != want.SS {
		return fmt.Sprintf("%s: the normal form %q parses into %s", m, clip(n.String()), view(again))
	}
	// Other origins
	h := &urn.URN{ID: p.NID, SS: p.NSS}
	if d := diffView(m.String()+" normal form of a hand-built URN", normView(h.Normalize()), want); d != "" {
		return d
	}
	c := *u
	if d := diffView(m.String()+" normal form of a copied URN", normView(c.Normalize()), want); d != "" {
		return d
	}
	e, _ := urn.Parse([]byte("URN:Other:x%AAy"))
	if e != nil {
		e.ID, e.SS = p.NID, p.NSS
		if d := diffView(m.String()+" normal form of an edited URN", normView(e.Normalize()), want); d != "" {
			return d
		}
		e = e.Normalize().Normalize()
		e.ID, e.SS = p.NID, p.NSS
		if d := diffView(m.String()+" normal form of an edited normal form", normView(e.Normalize()), want); d != "" {
			return d
		}
	}
	var dec *urn.URN
	switch m {
	case model.M2141:
		dec = &urn.URN{}
		if err := json.Unmarshal(jsonString(s), dec); err != nil {
			return ""
		}
	case model.M8141:
		var x urn.URN8141
		if err := json.Unmarshal(jsonString(s), &x); err != nil {
			return ""
		}
		dec = x.URN
	}
	if dec != nil {
		if d := diffView(m.String()+" normal form of a decoded URN", normView(dec.Normalize()), want); d != "" {
			return d
		}
	}
	w.count("normalized")
	return ""
}

func jsonString(s string) []byte {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return b
}

// equalTasks are the inputs whose variants are compared.
func (e *Env) equalTasks() []Task {
	var ts []Task
	for _, s := range seeds {
		s := s
		ts = append(ts, Task{Space: "edit neighbours (small alphabet)", Run: func(emit func([]byte)) {
			emit([]byte(s))
			edits1([]byte(s), []byte("bX0-:%"), emit)
		}})
	}
	ts = append(ts, e.spaceLiterals(e.Thorough)...)
	ts = append(ts, e.handSS()...)
	ts = append(ts, spaceHex()...)
	ts = append(ts, spaceWorld()...)
	ts = append(ts, e.spaceHuge(allModes, 18)...)
	ts = append(ts, spaceAround(e.Thorough)...)
	ts = append(ts, spaceNIDs(2)...)
	for _, m := range allModes {
		ts = append(ts, e.spaceW(m, 0, 1)...)
		d := 3
		if e.Thorough {
			d = 4
		}
		ts = append(ts, spaceTokens(m, d)...)
	}
	ts = append(ts, e.spacePairs(allModes, true)...)
	if e.Thorough {
		ts = append(ts, e.spaceMix(allModes, true)...)
		ts = append(ts, spaceProduct()...)
	}
	// Long ones, every position
	ts = append(ts, Task{Space: "long inputs, every position", Run: func(emit func([]byte)) {
		ns := []int{60, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1025, 1100, 2049, 4097, 8193, 16385, 33000, 65537, 66000}
		for _, v := range harvest(false).Ints {
			if v > 300 && v < 300000 {
				ns = append(ns, v-1, v, v+1, v+9, v+100)
			}
		}
		for _, n := range ns {
			for _, p := range []string{"urn:ab:", "urn:ietf:params:scim:api:n:"} {
				for k, t := range []string{"a", "a%0Fz", "Z", "%aB", "%AB", "%ab"} {
					if n > 5000 && k > 1 {
						break
					}
					b := []byte(p)
					for len(b) < n {
						b = append(b, t...)
					}
					emit(b)
				}
			}
		}
	}})
	return ts
}

// key is what lexical equivalence compares.
func key(id, ss string) [2]string { return [2]string{model.LowerASCII(id), model.NormSS(ss)} }

// U07, variants of one input
func checkEqualVariants(w *Worker, m model.Mode, in []byte) string {
	if ss, ok := byHand(in); ok {
		return checkHandEqual(w, ss)
	}
	tab := w.env.tabs[m]
	if tab.Run(in).Cat != model.OK {
		return ""
	}
	u, _ := parseM(m, in)
	if u == nil {
		return ""
	}
	s := string(in)
	p := model.Decompose(m, s)
	ku := key(p.NID, p.NSS)
	vu := view(u)
	w.traces++
	if !u.Equal(u) {
		return m.String() + ": not equal to itself"
	}
	if u.Equal(nil) {
		return m.String() + ": equal to nil"
	}
	n := u.Normalize()
	if !u.Equal(n) || !n.Equal(u) || !n.Equal(n.Normalize()) {
		return m.String() + ": not equal to its normal form"
	}
	cmp := func(x []byte) string {
		if tab.Run(x).Cat != model.OK {
			return ""
		}
		y, _ := parseM(m, x)
		if y == nil {
			return ""
		}
		w.traces++
		q := model.Decompose(m, string(x))
		want := key(q.NID, q.NSS) == ku
		vy := view(y)
		if a, b := u.Equal(y), y.Equal(u); a != want || b != want {
			return fmt.Sprintf("%s: %s and %s: Equal says %v and %v, want %v", m, quote(in), quote(x), a, b, want)
		}
		if a := n.Equal(y); a != want {
			return fmt.Sprintf("%s: normal form of %s and %s: Equal says %v, want %v", m, quote(in), quote(x), a, want)
		}
		if want {
			w.count("equal pairs")
		} else {
			w.count("different pairs")
		}
		if view(y) != vy {
			return fmt.Sprintf("%s: comparing %s and %s changed the second: %s, was %s", m, quote(in), quote(x), view(y), vy)
		}
		return ""
	}
	buf := append([]byte(nil), in...)
	for _, i := range w.positions(len(in)) {
		c := in[i]
		alt := [3]byte{c ^ 0x20, c + 1, 'a'}
		for k, a := range alt {
			if a == c || k == 0 && !(c|0x20 >= 'a' && c|0x20 <= 'z') && c != '%' {
				continue
			}
			buf[i] = a
			if msg := cmp(buf); msg != "" {
				return msg
			}
		}
		buf[i] = c
	}
	// Everything in upper and in lower case, one byte more, one byte less
	up, lo := append([]byte(nil), in...), append([]byte(nil), in...)
	for i, c := range in {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			up[i], lo[i] = c&^0x20, c|0x20
		}
	}
	hx := []byte(s)
	for i := 0; i < len(hx); i++ {
		if hx[i] == '%' {
			for k := i + 1; k < i+3 && k < len(hx); k++ {
				if c := hx[k]; c|0x20 >= 'a' && c|0x20 <= 'z' {
					hx[k] ^= 0x20
				}
			}
			i += 2
		}
	}
	base := p.Prefix + ":" + p.NID + ":" + p.NSS
	for _, x := range [][]byte{up, lo, hx, []byte(s + "x"), in[:len(in)-1], []byte(base), []byte("URN" + s[3:]), []byte(base + "?+zz"), []byte(base + "?=zz"), []byte(base + "#zz"), []byte(base + ":"), []byte(base + "%aa")} {
		if msg := cmp(x); msg != "" {
			return msg
		}
	}
	// What well-meant code might take for the same
	if len(p.NSS) <= 400 {
		if msg := checkSimilar(w, m, u, in, p.NID, p.NSS); msg != "" {
			return msg
		}
	}
	if view(u) != vu {
		return fmt.Sprintf("%s: comparing changed the URN: %s, was %s", m, view(u), vu)
	}
	return ""
}

var similarSS = []func(s string) string{
	func(s string) string { return strings.ReplaceAll(s, "-", "") },
	func(s string) string { return strings.ReplaceAll(s, ":", "") },
	func(s string) string { return strings.ReplaceAll(s, "/./", "/") },
	func(s string) string { return strings.ReplaceAll(s, "//", "/") },
	func(s string) string { return strings.ReplaceAll(s, "_", "-") },
	func(s string) string { return strings.ReplaceAll(s, "+", "%20") },
	func(s string) string { return strings.TrimRight(s, "/") },
	func(s string) string { return strings.TrimRight(s, ".") },
	func(s string) string { return strings.TrimRight(s, ":") },
	func(s string) string { return strings.TrimLeft(s, "0") },
	func(s string) string { return strings.ToLower(s) },
	func(s string) string { return strings.ToUpper(s) },
	func(s string) string { // . and .. of a path
		if !strings.Contains(s, "/") {
			return s
		}
		return path.Clean(s)
	},
	func(s string) string { // decoded where nothing needs the encoding
		if x, err := url.PathUnescape(s); err == nil {
			return x
		}
		return s
	},
	func(s string) string { // in order
		if !strings.ContainsAny(s, "&;,") {
			return s
		}
		for _, sep := range []string{"&", ";", ","} {
			xs := strings.Split(s, sep)
			sort.Strings(xs)
			s = strings.Join(xs, sep)
		}
		return s
	},
}

// checkSimilar compares a URN with hand-built ones that a person might take for the same: a character that is no letter or digit left
// out or exchanged with the next one, common canonical forms.
func checkSimilar(w *Worker, m model.Mode, u *urn.URN, in []byte, id, ss string) string {
	ku := key(id, ss)
	try := func(xid, xss string) string {
		if xss == "" || xid == "" || xss == ss && xid == id || !model.WellFormedSS(xss) || !asciiOnly(xss) {
			return ""
		}
		w.traces++
		y := &urn.URN{ID: xid, SS: xss}
		want := ku == key(xid, xss)
		if a, b := u.Equal(y), y.Equal(u); a != want || b != want {
			return fmt.Sprintf("%s: %s and URN{ID: %q, SS: %q}: Equal says %v and %v, want %v", m, quote(in), xid, clip(xss), a, b, want)
		}
		return ""
	}
	for _, f := range similarSS {
		if msg := try(id, f(ss)); msg != "" {
			return msg
		}
	}
	for _, x := range []string{strings.ReplaceAll(id, "-", ""), strings.TrimPrefix(strings.ToLower(id), "x-"), strings.TrimLeft(id, "0")} {
		if x != id {
			if msg := try(x, ss); msg != "" {
				return msg
			}
		}
	}
	if len(ss) <= 64 {
		for i := 0; i < len(ss); i++ {
			c := ss[i]
			if c == '%' || c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'z' {
				continue
			}
			if msg := try(id, ss[:i]+ss[i+1:]); msg != "" {
				return msg
			}
			if i+1 < len(ss) && ss[i+1] != '%' {
				if msg := try(id, ss[:i]+ss[i+1:i+2]+ss[i:i+1]+ss[i+2:]); msg != "" {
					return msg
				}
			}
		}
	}
	return ""
}

// positions of an input: all, or, of a long one, some at equal distances, the first and the last
// ones, and the ones around powers of two and integers of the sources.
func (w *Worker) positions(n int) (ps []int) {
	if n <= 400 {
		for i := 0; i < n; i++ {
			ps = append(ps, i)
		}
		return ps
	}
	if w.slots["positions"] == n {
		return w.slots["the positions"].([]int)
	}
	ints, _ := w.slots["ints"].([]int)
	if ints == nil {
		for k := 6; k < 20; k++ {
			ints = append(ints, 1<<k)
		}
		for _, v := range harvest(false).Ints {
			if v > 256 {
				ints = append(ints, v)
			}
		}
		w.slots["ints"] = ints
	}
	set := map[int]bool{}
	for i := 0; i < n; i += n/30 + 1 {
		set[i] = true
	}
	for i := 0; i < 10; i++ {
		set[i], set[n-1-i] = true, true
	}
	for _, v := range ints {
		for _, d := range []int{-1, 0, 1, 6, 7, 8, 27} { // also counted from the beginning of a part
			if i := v + d; i < n && (n < 5000 || d <= 0 || d == 7) {
				set[i] = true
			}
		}
	}
	for i := range set {
		ps = append(ps, i)
	}
	sort.Ints(ps)
	w.slots["positions"], w.slots["the positions"] = n, ps
	return ps
}

type origin struct {
	name string
	id   string
	ss   string
	mk   func() *urn.URN
}

// equalPool builds URNs of every origin.
func equalPool(thorough bool) []origin {
	var pool []origin
	nids := []string{"ab", "AB", "aB", "ac", "abc", "urn-1", "URN-1"}
	nsss := []string{"x", "X", "xy", "%aa", "%AA", "%aA", "x%4b", "x%4B", "X%4b", "x%4b%c3", "x%4B%C3", "x%4b%C3", "xK", "k", "K", "x:y", "X:y", "%aaA", "%aaa", "%AAa", "a%aa"}
	pres := []string{"urn", "UrN"}
	comps := []string{"", "?+r", "?=q", "#f", "?+R?=Q#F"}
	add := func(name, id, ss string, mk func() *urn.URN) { pool = append(pool, origin{name, id, ss, mk}) }
	for _, nid := range nids {
		for _, nss := range nsss {
			nid, nss := nid, nss
			add("hand-built "+nid+" "+nss, nid, nss, func() *urn.URN { return &urn.URN{ID: nid, SS: nss} })
			add("edited "+nid+" "+nss, nid, nss, func() *urn.URN {
				u, _ := urn.Parse([]byte("urn:zz:q%Bb"))
				if u == nil {
					return nil
				}
				u.Equal(u)
				u.ID, u.SS = nid, nss
				return u
			})
			add("edited normal form "+nid+" "+nss, nid, nss, func() *urn.URN {
				u, _ := urn.Parse([]byte("urn:zz:q%Bb"))
				if u == nil {
					return nil
				}
				u = u.Normalize()
				u.ID, u.SS = nid, nss
				return u
			})
			for _, pre := range pres {
				s := pre + ":" + nid + ":" + nss
				add("RFC2141 "+s, nid, nss, func() *urn.URN { u, _ := parseM(model.M2141, []byte(s)); return u })
				add("normalized "+s, model.LowerASCII(nid), model.NormSS(nss), func() *urn.URN {
					u, _ := parseM(model.M2141, []byte(s))
					if u == nil {
						return nil
					}
					return u.Normalize()
				})
				add("twice normalized "+s, model.LowerASCII(nid), model.NormSS(nss), func() *urn.URN {
					u, _ := parseM(model.M2141, []byte(s))
					if u == nil {
						return nil
					}
					return u.Normalize().Normalize()
				})
				add("decoded "+s, nid, nss, func() *urn.URN {
					u := &urn.URN{}
					if json.Unmarshal(jsonString(s), u) != nil {
						return nil
					}
					return u
				})
				for _, c := range comps {
					t := s + c
					add("RFC8141 "+t, nid, nss, func() *urn.URN { u, _ := parseM(model.M8141, []byte(t)); return u })
				}
			}
		}
	}
	for _, s := range []string{"urn:ietf:params:scim:api:x%Aa", "urn:ietf:params:scim:api:x:%Aa", "URN:ietf:params:scim:api:x:%aA", "urn:ietf:params:scim:api:X:%aA"} {
		s := s
		for _, m := range allModes {
			m := m
			u, _ := parseM(m, []byte(s))
			if u == nil {
				continue
			}
			p := model.Decompose(m, s)
			add(m.String()+" "+s, p.NID, p.NSS, func() *urn.URN { u, _ := parseM(m, []byte(s)); return u })
			add("normalized "+m.String()+" "+s, model.LowerASCII(p.NID), model.NormSS(p.NSS), func() *urn.URN { u, _ := parseM(m, []byte(s)); return u.Normalize() })
		}
	}
	add("zero", "", "", func() *urn.URN { return &urn.URN{} })
	add("identifier only", "ab", "", func() *urn.URN { return &urn.URN{ID: "ab"} })
	add("specific string only", "", "x", func() *urn.URN { return &urn.URN{SS: "x"} })
	return pool
}

func comparePair(a, b origin) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s and %s: panic: %v", a.name, b.name, r)
		}
	}()
	x, y := a.mk(), b.mk()
	if x == nil || y == nil {
		return ""
	}
	vx, vy := view(x), view(y)
	want := key(a.id, a.ss) == key(b.id, b.ss)
	if p, q := x.Equal(y), y.Equal(x); p != want || q != want {
		return fmt.Sprintf("%s and %s: Equal says %v and %v, want %v", a.name, b.name, p, q, want)
	}
	if view(x) != vx || view(y) != vy {
		return fmt.Sprintf("%s and %s: comparing changed them: %s and %s, were %s and %s", a.name, b.name, view(x), view(y), vx, vy)
	}
	if p := x.Equal(y); p != want {
		return fmt.Sprintf("%s and %s: Equal says %v the second time", a.name, b.name, p)
	}
	return ""
}

// equalMatrix compares every two URNs of the pool.
func (e *Env) equalMatrix() {
	pool := equalPool(e.Thorough)
	var pairs, same int64
	e.parallel(len(pool), func(i int) {
		for j := i; j < len(pool); j++ {
			if msg := comparePair(pool[i], pool[j]); msg != "" {
				e.report(1<<20+i, &Viol{Check: "pair", Ops: []int{i, j}, Message: msg})
				return
			}
			if key(pool[i].id, pool[i].ss) == key(pool[j].id, pool[j].ss) {
				atomic.AddInt64(&same, 1)
			}
		}
		atomic.AddInt64(&pairs, int64(len(pool)-i))
	})
	e.stats.Spaces["all pairs of the pool"] = map[string]int64{"urns": int64(len(pool)), "pairs": pairs, "equal": same}
	e.stats.Traces += pairs
	e.stats.Evaluations += pairs
}

func replayPair(v *Viol) string {
	pool := equalPool(false)
	if len(v.Ops) != 2 || v.Ops[0] >= len(pool) || v.Ops[1] >= len(pool) {
		return ""
	}
	return comparePair(pool[v.Ops[0]], pool[v.Ops[1]])
}
