package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

func init() {
	props["U23"] = &Prop{
		Run: func(e *Env) {
			e.runHistories()
			e.handProduct()
			e.exploreInputs(e.handTasks(), allModes, checkHand)
			e.finish(allModes)
		},
		Replay: func(v *Viol) string {
			if v.Check == "history" {
				return replayHistory("U23", v)
			}
			e := newEnv("U23", "quick", 1, 1)
			if v.Check == "product" {
				i, j := v.Ops[0], v.Ops[1]
				return handPair(handStrings[i%len(handStrings)], handStrings[j%len(handStrings)])
			}
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkHand)
		},
	}
}

func (e *Env) handTasks() []Task {
	if e.Thorough {
		return append(e.light(allModes), e.handSS()...)
	}
	ts := append(e.jsonTasks(), e.handSS()...)
	ts = append(ts, e.spacePump(allModes, e.extraLens())...)
	return ts
}

// handStrings are put in every field.
var handStrings = []string{"", "a", "AB", "urn", "URN", "ab-", "-a", "a:b", ":", "%", "%4", "%4B", "%4b", "%%4B", "x%Zzy", "%C3%AB", "?", "?+r", "?+", "a?=b", "#", "#f", "a#", "a?+b?=c#d",
	"ietf", "params:scim:api:n", "params:scim:schemas:Core:2.0", "urn:ab:c", "\x00", "\xff", "é", "ÀB", "K", "\u2028", "İ", " ", "a b", "\n", "<>&", "\"", "\\", "%s", "%d%n", "%!",
	strings.Repeat("N", 33), strings.Repeat("%AB", 100), strings.Repeat("z", 4096)}

var handTypes = []scimschema.Type{math.MinInt, -1, 0, 1, 2, 3, 4, 255, 256, 257, 259, 1 << 32, 1<<32 + 1, math.MaxInt}

// asciiOnly: the normal form is only specified where letters are the ASCII ones.
func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// utf8JSON is what a JSON document can carry.
func utf8JSON(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

// sameText: what was decoded is the string, but for what JSON cannot carry.
func sameText(got, s string) bool {
	if got == s || got == utf8JSON(s) {
		return true
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return got == b.String()
}

// handPair puts x and y in the two fields of a URN and of a SCIM value, and does everything to them.
func handPair(x, y string) (msg string) {
	what := fmt.Sprintf("URN{ID: %q, SS: %q}", clip(x), clip(y))
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s: panic: %v", what, r)
		}
	}()
	want := ""
	if x != "" && y != "" {
		want = "urn:" + x + ":" + y
	}
	u := &urn.URN{ID: x, SS: y}
	same := func(v View) string {
		if v.ID != x || v.SS != y || v.Str != want || v.R != "" || v.Q != "" || v.F != "" {
			return fmt.Sprintf("%s is %s, want string form %q", what, v, clip(want))
		}
		return ""
	}
	first := view(u)
	if d := same(first); d != "" {
		return d
	}
	n := u.Normalize()
	if asciiOnly(x) {
		if d := diffNorm("the normal form of "+what, n, x, y); d != "" {
			return d
		}
	}
	view(n)
	if !u.Equal(u) || asciiOnly(x) && (!u.Equal(n) || !n.Equal(u)) || u.Equal(nil) {
		return what + " is not equal to itself or to its normal form, or is equal to nil"
	}
	z := urn.URN{ID: x, SS: y}
	if !u.Equal(&z) || !z.Equal(u) {
		return what + " is not equal to another such value"
	}
	for _, v := range []interface{}{u, *u, urn.URN8141{URN: u}, &urn.URN8141{URN: u}} {
		b, err := json.Marshal(v)
		if err != nil {
			return fmt.Sprintf("marshaling %s as %T: %v", what, v, err)
		}
		var s string
		if err := json.Unmarshal(b, &s); err != nil || !sameText(s, want) {
			return fmt.Sprintf("marshaling %s as %T gives %s", what, v, head(string(b), 300))
		}
	}
	if view(u) != first {
		return fmt.Sprintf("%s changed while it was looked at: %s, was %s", what, view(u), first)
	}
	for _, t := range handTypes {
		s := urn.SCIM{Type: t, Name: x, Other: y}
		what = fmt.Sprintf("SCIM{Type: %d, Name: %q, Other: %q}", t, clip(x), clip(y))
		str := s.String()
		name := map[scimschema.Type]string{scimschema.Schemas: "schemas", scimschema.API: "api", scimschema.Param: "param"}[t]
		if name != "" && x != "" {
			w := "urn:ietf:params:scim:" + name + ":" + x
			if y != "" {
				w += ":" + y
			}
			if str != w {
				return fmt.Sprintf("the string form of %s is %q, want %q", what, clip(str), clip(w))
			}
		}
		for _, v := range []interface{}{s, &s} {
			b, err := json.Marshal(v)
			if err != nil {
				return fmt.Sprintf("marshaling %s as %T: %v", what, v, err)
			}
			var got string
			if err := json.Unmarshal(b, &got); err != nil || !sameText(got, str) {
				return fmt.Sprintf("marshaling %s as %T gives %s, its string form is %q", what, v, head(string(b), 300), clip(str))
			}
		}
		if s.Type != t || s.Name != x || s.Other != y || s.String() != str {
			return what + " changed while it was looked at"
		}
	}
	return ""
}

// handMark begins what stands for a specific string that is given to a URN by hand.
const handMark = "\x00by hand\x00"

// handSS are specific strings given by hand, well-formed or not.
func (e *Env) handSS() []Task {
	alphabet := []byte("%aA4zZG@[`{:")
	deep := 4
	if e.Thorough {
		deep = 5
	}
	words := func(emit func([]byte)) {
		var rec func(b []byte)
		rec = func(b []byte) {
			emit(b)
			if len(b) < len(handMark)+deep {
				for _, c := range alphabet {
					rec(append(b[:len(b):len(b)], c))
				}
			}
		}
		rec([]byte(handMark))
	}
	bytes2 := func(emit func([]byte)) {
		for i := 0; i < 1<<16; i++ {
			x, y := byte(i>>8), byte(i)
			emit(append([]byte(handMark), '%', x, y))
			emit(append([]byte(handMark), 'a', '%', x, y, 'B', '%', 'C', 'd'))
		}
	}
	long := func(emit func([]byte)) {
		var ns []int
		for k := 3; k < 17; k++ {
			ns = append(ns, 1<<k-2, 1<<k-1, 1<<k, 1<<k+1)
		}
		for _, v := range harvest(false).Ints {
			if v > 2 && v < 70000 {
				ns = append(ns, v-1, v, v+1)
			}
		}
		for _, n := range ns {
			for _, unit := range []string{"a", "A", "%", "%4", "%4B", "%C3", "aB%4aZ", "%G@"} {
				if n > 5000 && len(unit) == 2 {
					continue
				}
				for _, end := range []string{"", "%", "%4", "%B", "%4B", "A"} {
					b := []byte(handMark)
					for len(b)-len(handMark)+len(end) < n {
						b = append(b, unit...)
					}
					emit(append(b, end...))
				}
			}
		}
	}
	ms := []model.Mode{model.M2141}
	return []Task{{"parts by hand: words", ms, words}, {"parts by hand: every two bytes after a percent sign", ms, bytes2}, {"parts by hand: long ones", ms, long}}
}

// byHand tells the specific string an input stands for.
func byHand(in []byte) (string, bool) {
	if bytes.HasPrefix(in, []byte(handMark)) {
		return string(in[len(handMark):]), true
	}
	return "", false
}

// diffNorm: the normal form of a URN of these parts. Where a percent sign begins no percent-encoding, what
// becomes of the upper-case letters among the two bytes that follow is left open.
func diffNorm(what string, n *urn.URN, id, ss string) string {
	want := expectNorm(id, ss)
	if model.WellFormedSS(ss) {
		return diffView(what, normView(n), want)
	}
	got := n.SS
	bad := len(got) != len(ss)
	open := 0
	for i := 0; i < len(ss) && !bad; i++ {
		upper := 'A' <= ss[i] && ss[i] <= 'Z'
		bad = got[i] != ss[i] && !(open > 0 && upper && got[i] == ss[i]+32)
		open--
		if ss[i] == '%' {
			open = 2
		}
	}
	if bad {
		return fmt.Sprintf("%s: the specific string is %q", what, clip(got))
	}
	want.SS = got
	if want.Str != "" {
		want.Str = "urn:" + want.ID + ":" + got
	}
	return diffView(what, normView(n), want)
}

// checkHandNorm: the normal form, and the comparisons, of a URN with a specific string given by hand.
func checkHandNorm(w *Worker, ss string) string {
	w.traces++
	for k := 0; k < 3; k++ {
		u := &urn.URN{ID: "Ab", SS: ss}
		what := fmt.Sprintf("URN{ID: %q, SS: %q}", "Ab", clip(ss))
		if k > 0 {
			u, _ = urn.Parse([]byte("URN:Other:x%AAy"))
			if u == nil {
				return ""
			}
			what = "a parsed URN edited into " + what
			if k > 1 {
				u = u.Normalize()
				what = "a normal form edited into " + what
			}
			u.ID, u.SS = "Ab", ss
		}
		before := view(u)
		n := u.Normalize()
		if d := diffNorm("the normal form of "+what, n, "Ab", ss); d != "" {
			return d
		}
		if nn := n.Normalize(); normView(nn) != normView(n) {
			return fmt.Sprintf("the normal form of the normal form of %s: %s, not %s", what, normView(nn), normView(n))
		}
		if view(u) != before {
			return fmt.Sprintf("normalizing %s changes it into %s", what, view(u))
		}
		if asciiOnly(ss) {
			u.ID, u.SS = ss, "x%4Cy"
			if d := diffNorm(fmt.Sprintf("the normal form of URN{ID: %q, SS: %q}", clip(ss), u.SS), u.Normalize(), ss, u.SS); d != "" {
				return d
			}
		}
		w.count("by hand")
	}
	return ""
}

// checkHandEqual compares a URN with a specific string given by hand with its neighbours.
func checkHandEqual(w *Worker, ss string) string {
	w.traces++
	u := &urn.URN{ID: "Ab", SS: ss}
	what := fmt.Sprintf("URN{ID: %q, SS: %q}", "Ab", clip(ss))
	n := u.Normalize()
	z := urn.URN{ID: "aB", SS: ss}
	if !u.Equal(u) || !u.Equal(n) || !n.Equal(u) || !u.Equal(&z) || !z.Equal(u) || u.Equal(nil) {
		return what + " is not equal to itself, to its normal form or to a copy, or is equal to nil"
	}
	buf := []byte(ss)
	ps := []int{0, 1, 2, len(ss) / 2, len(ss) - 4, len(ss) - 3, len(ss) - 2, len(ss) - 1}
	if len(ss) < 100 {
		ps = w.positions(len(ss))
	}
	for _, i := range ps {
		c := buf[i]
		for _, a := range []byte{c ^ 0x20, c + 1} {
			buf[i] = a
			o := &urn.URN{ID: "ab", SS: string(buf)}
			buf[i] = c
			var want bool
			switch {
			case model.WellFormedSS(ss) && model.WellFormedSS(o.SS):
				want = model.NormSS(ss) == model.NormSS(o.SS)
			case a|0x20 >= 'a' && a|0x20 <= 'z' && a == c^0x20 && (i > 0 && ss[i-1] == '%' || i > 1 && ss[i-2] == '%'):
				want = u.Normalize().SS == o.Normalize().SS // left open
			}
			if p, q := u.Equal(o), o.Equal(u); p != want || q != want {
				return fmt.Sprintf("%s and URN{ID: %q, SS: %q}: Equal says %v and %v, want %v", what, "ab", clip(o.SS), p, q, want)
			}
		}
	}
	if asciiOnly(ss) {
		a, b := &urn.URN{ID: ss, SS: "x"}, &urn.URN{SS: "x"}
		for _, i := range ps {
			c := buf[i]
			for _, alt := range []byte{c ^ 0x20, c + 1} {
				if alt >= 0x80 {
					continue
				}
				buf[i] = alt
				b.ID = string(buf)
				buf[i] = c
				want := model.LowerASCII(ss) == model.LowerASCII(b.ID)
				if p, q := a.Equal(b), b.Equal(a); p != want || q != want {
					return fmt.Sprintf("URNs with the identifiers %q and %q: Equal says %v and %v, want %v", clip(ss), clip(b.ID), p, q, want)
				}
			}
		}
	}
	w.count("by hand")
	return ""
}

// handProduct: every two odd strings in the fields.
func (e *Env) handProduct() {
	k := len(handStrings)
	e.parallel(k*k, func(i int) {
		if msg := handPair(handStrings[i%k], handStrings[i/k]); msg != "" {
			e.report(i, &Viol{Check: "product", Ops: []int{i % k, i / k}, Message: msg})
		}
	})
	e.stats.Spaces["product of odd strings in the fields"] = map[string]int64{"strings": int64(k), "types": int64(len(handTypes)), "pairs": int64(k * k)}
	if e.first() {
		e.stats.Evaluations += int64(k * k * (1 + len(handTypes)))
	}
}

// U23: what is built from the parts of an accepted input is what parsing gives.
func checkHand(w *Worker, m model.Mode, in []byte) string {
	if ss, ok := byHand(in); ok {
		w.traces++
		if msg := handPair("Ab", ss); msg != "" {
			return msg
		}
		return handPair(ss, "x%4B")
	}
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	s := string(in)
	p := model.Decompose(m, s)
	// The same URN without components, and with the prefix in lower case: what the two parts can say
	bare := "urn:" + p.NID + ":" + p.NSS
	if w.env.tabs[m].Run([]byte(bare)).Cat != model.OK {
		return "" // (an empty specific string with components is rejected, so this does not happen)
	}
	u, err := parseM(m, []byte(bare))
	if u == nil {
		return fmt.Sprintf("%s: the string form of URN{ID: %q, SS: %q} is rejected: %s", m, clip(p.NID), clip(p.NSS), errText(err))
	}
	w.traces++
	h := &urn.URN{ID: p.NID, SS: p.NSS}
	if h.String() != bare || u.String() != bare {
		return fmt.Sprintf("%s: hand-built %q, parsed %q, want %q", m, clip(h.String()), clip(u.String()), clip(bare))
	}
	if !h.Equal(u) || !u.Equal(h) {
		return fmt.Sprintf("%s: hand-built and parsed %q are not equal", m, clip(bare))
	}
	if d := diffView(m.String()+" normal form of the hand-built URN", normView(h.Normalize()), normView(u.Normalize())); d != "" {
		return d
	}
	hb, err1 := json.Marshal(h)
	ub, err2 := json.Marshal(u)
	if err1 != nil || err2 != nil || !bytes.Equal(hb, ub) {
		return fmt.Sprintf("%s: hand-built %q marshals to %s (%v), the parsed one to %s (%v)", m, clip(bare), head(string(hb), 200), err1, head(string(ub), 200), err2)
	}
	// A parsed URN whose parts are replaced
	e, _ := parseM(model.M2141, []byte("urn:other:%ABx"))
	if e != nil {
		e.Normalize()
		e.ID, e.SS = p.NID, p.NSS
		if e.String() != bare || !e.Equal(u) || !u.Equal(e) {
			return fmt.Sprintf("%s: edited into %q: string form %q, equal %v and %v", m, clip(bare), clip(e.String()), e.Equal(u), u.Equal(e))
		}
	}
	if m == model.M8141 {
		x := urn.URN8141{URN: h}
		if x.String() != bare {
			return fmt.Sprintf("URN8141 built by hand: %q, want %q", clip(x.String()), clip(bare))
		}
		xb, err := json.Marshal(x)
		if err != nil || !bytes.Equal(xb, ub) {
			return fmt.Sprintf("%s: hand-built %q marshals to %s (%v) as URN8141", m, clip(bare), head(string(xb), 200), err)
		}
		var y urn.URN8141
		if err := json.Unmarshal(xb, &y); err != nil || y.URN == nil || !y.Equal(h) || !h.Equal(y.URN) || y.String() != bare {
			return fmt.Sprintf("%s: decoding what hand-built %q marshals to: %v", m, clip(bare), err)
		}
	}
	if m == model.M7643 {
		t := realType[p.Type]
		sc := urn.SCIM{Type: t, Name: p.Name, Other: p.Other}
		want := "urn" + s[3:]
		if got := sc.String(); got != want {
			return fmt.Sprintf("SCIM{%s %q %q} has string form %q, want %q", p.Type, clip(p.Name), clip(p.Other), clip(got), clip(want))
		}
		b, err := json.Marshal(sc)
		if err != nil {
			return fmt.Sprintf("marshaling SCIM{%s %q %q}: %v", p.Type, clip(p.Name), clip(p.Other), err)
		}
		var y urn.SCIM
		if err := json.Unmarshal(b, &y); err != nil || y.Type != t || y.Name != p.Name || y.Other != p.Other || y.String() != want {
			return fmt.Sprintf("SCIM{%s %q %q} marshals to %s and comes back as %s (%v)", p.Type, clip(p.Name), clip(p.Other), head(string(b), 200), scimView(&y), err)
		}
		full, _ := parseM(m, []byte(want))
		if full == nil {
			return fmt.Sprintf("the string form %q of a SCIM value is rejected", clip(want))
		}
		if v := full.SCIM(); v == nil || v.Type != t || v.Name != p.Name || v.Other != p.Other || v.String() != want {
			return fmt.Sprintf("the string form %q of SCIM{%s %q %q} parses into %s", clip(want), p.Type, clip(p.Name), clip(p.Other), scimView(v))
		}
	}
	w.count("hand-built")
	return ""
}
