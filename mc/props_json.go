package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

func init() {
	props["U08"] = &Prop{
		Run: func(e *Env) {
			if e.first() {
				if msg := marshalOdd(e); msg != "" {
					e.report(0, &Viol{Check: "odd", Message: msg})
					return
				}
			}
			e.runHistories()
			e.jsonEscapes(checkJSONValue)
			e.exploreInputs(e.jsonTasks(), allModes, checkRoundTrip)
			e.finish(allModes)
		},
		Replay: func(v *Viol) string {
			if v.Check == "history" {
				return replayHistory("U08", v)
			}
			e := newEnv("U08", "quick", 1, 1)
			if v.Check == "odd" {
				return marshalOdd(e)
			}
			if v.Check == "json" {
				return checkJSONValue(&Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}, v.Input)
			}
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkRoundTrip)
		},
	}
	props["U09"] = &Prop{
		Run: func(e *Env) {
			e.runHistories()
			e.jsonWords()
			e.jsonEscapes(checkJSONDocW)
			var ts []Task
			if e.Thorough {
				ts = e.light(allModes)
			} else {
				ts = e.jsonTasks()
				for _, m := range allModes {
					ts = append(ts, e.spaceW(m, 0, 1)...)
				}
			}
			ts = append(ts, longInvalid()...)
			e.exploreInputs(ts, allModes, checkDecodeReject)
			e.finish(allModes)
		},
		Replay: func(v *Viol) string {
			if v.Check == "history" {
				return replayHistory("U09", v)
			}
			e := newEnv("U09", "quick", 1, 1)
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			if v.Check == "json" {
				return checkJSONDoc(e, v.Input)
			}
			return guarded(w, model.Mode(v.Mode), v.Input, checkDecodeReject)
		},
	}
}

func (e *Env) jsonTasks() []Task {
	var ts []Task
	for _, s := range seeds {
		s := s
		ts = append(ts, Task{Space: "edit neighbours (small alphabet)", Run: func(emit func([]byte)) {
			emit([]byte(s))
			edits1([]byte(s), []byte("bX0-:%?+=#/~&'@"), emit)
		}})
	}
	ts = append(ts, e.spaceLiterals(e.Thorough)...)
	ts = append(ts, spaceHex()...)
	ts = append(ts, spaceWorld()...)
	ts = append(ts, e.spaceHuge(allModes, 18)...)
	ts = append(ts, spaceAround(e.Thorough)...)
	ts = append(ts, spaceNIDs(2)...)
	for _, m := range allModes {
		d := 3
		if e.Thorough {
			d = 4
		}
		ts = append(ts, e.spaceW(m, 0, 1)...)
		ts = append(ts, spaceTokens(m, d)...)
	}
	ts = append(ts, e.spacePairs(allModes, true)...)
	ts = append(ts, e.spaceMix(allModes, true)...)
	ts = append(ts, Task{Space: "long inputs", Run: func(emit func([]byte)) {
		for _, n := range pumpLens(false) {
			if n > 70000 {
				continue
			}
			for _, p := range []string{"urn:ab:", "urn:ietf:params:scim:api:n:", "urn:ab:c?+", "urn:ab:c?=", "urn:ab:c#", "urn:ab:%4B?+%4b#"} {
				for _, t := range []string{"a", "%aB", "&", ":"} {
					emit([]byte(p + strings.Repeat(t, n)))
				}
			}
		}
	}})
	if e.Thorough {
		ts = append(ts, spaceProduct()...)
	} else {
		ts = append(ts, Task{Space: "product of the parts (reduced)", Run: func(emit func([]byte)) {
			for _, pre := range slotPrefix[:2] {
				for _, nid := range slotNID[:6] {
					for _, nss := range slotNSS {
						for _, r := range slotR {
							for _, q := range slotQ[:6] {
								for _, f := range slotF[:5] {
									emit([]byte(pre + ":" + nid + ":" + nss + r + q + f))
								}
							}
						}
					}
				}
			}
		}})
		ts = append(ts, spaceProduct()[len(slotNID)*len(slotNSS):]...)
	}
	return ts
}

// spellings are JSON documents for the same string.
func spellings(s string) [][]byte {
	b := jsonString(s)
	lo, up := &bytes.Buffer{}, &bytes.Buffer{}
	mixed := &bytes.Buffer{}
	lo.WriteByte('"')
	up.WriteString(" \t\n\r\"")
	mixed.WriteByte('"')
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(lo, "\\u%04x", s[i])
		fmt.Fprintf(up, "\\u%04X", s[i])
		switch {
		case s[i] == '/':
			mixed.WriteString("\\/")
		case i%3 == 0:
			fmt.Fprintf(mixed, "\\u%04x", s[i])
		default:
			mixed.WriteByte(s[i])
		}
	}
	lo.WriteByte('"')
	up.WriteString("\"\n ")
	mixed.WriteByte('"')
	return [][]byte{b, lo.Bytes(), up.Bytes(), mixed.Bytes()}
}

type docURN struct {
	A *urn.URN
	B urn.URN
	C []urn.URN
	D map[string]*urn.URN
	E interface{} `json:",omitempty"`
}

type doc8141 struct {
	A *urn.URN8141
	B urn.URN8141
	C []urn.URN8141
	D map[string]*urn.URN8141
}

type docSCIM struct {
	A *urn.SCIM
	B urn.SCIM
	C []urn.SCIM
	D map[string]*urn.SCIM
}

func marshalsTo(what string, x interface{}, want string) string {
	b, err := json.Marshal(x)
	if err != nil {
		return fmt.Sprintf("marshaling %s: %v", what, err)
	}
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return fmt.Sprintf("marshaling %s gives %s: %v", what, head(string(b), 200), err)
	}
	if s != want {
		return fmt.Sprintf("marshaling %s gives %q, want %q", what, clip(s), clip(want))
	}
	return ""
}

func scimView(s *urn.SCIM) View {
	if s == nil {
		return View{Nil: true}
	}
	return View{HasSCIM: true, Type: s.Type, Name: s.Name, Other: s.Other, SCIMStr: s.String()}
}

// U08
func checkRoundTrip(w *Worker, m model.Mode, in []byte) string {
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	u, _ := parseM(m, in)
	if u == nil {
		return ""
	}
	str := u.String()
	w.traces++
	if d := marshalsTo("*URN", u, str); d != "" {
		return d
	}
	if d := marshalsTo("URN", *u, str); d != "" {
		return d
	}
	b, err := u.MarshalJSON()
	if err != nil || !json.Valid(b) {
		return fmt.Sprintf("MarshalJSON gives %s, %v", head(string(b), 200), err)
	}
	w.count("marshaled")
	if len(in) > 5000 {
		// Long: into new values only
		for _, sp := range append(spellings(str)[:2], b) {
			if msg := checkJSONValueOf(w, sp, []model.Mode{m}); msg != "" {
				return msg
			}
		}
		return ""
	}
	switch m {
	case model.M2141:
		doc, err := json.Marshal(docURN{A: u, B: *u, C: []urn.URN{*u, *u}, D: map[string]*urn.URN{"k": u}})
		if err != nil {
			return "marshaling a document: " + err.Error()
		}
		want := view(u)
		check := func(how string, r *urn.URN, err error) string {
			if err != nil {
				return fmt.Sprintf("decoding %s: %v", how, err)
			}
			if d := diffView("decoded "+how, view(r), want); d != "" {
				return d
			}
			if !r.Equal(u) || !u.Equal(r) {
				return "the decoded value is not equal (" + how + ")"
			}
			return ""
		}
		for i, sp := range spellings(str) {
			other, _ := urn.Parse([]byte("URN:other:Stuff%AA"))
			comp, _ := parseM(model.M8141, []byte("urn:ab:c?+r?=q#f"))
			sc, _ := parseM(model.M7643, []byte("urn:ietf:params:scim:api:n:o"))
			cpy := *u
			for k, r := range []*urn.URN{{}, other, comp, sc, &cpy, {ID: "Hand", SS: "%AA"}} {
				if r == nil {
					continue
				}
				if k > 0 && i > 0 && k != 1+i {
					continue
				}
				old := *r
				oldView := view(&old)
				err := json.Unmarshal(sp, r)
				if d := check(fmt.Sprintf("spelling %d into receiver %d", i, k), r, err); d != "" {
					return d
				}
				if d := diffView(fmt.Sprintf("a copy made of receiver %d before decoding into it", k), view(&old), oldView); d != "" {
					return d
				}
			}
			r := &urn.URN{}
			own := append([]byte(nil), sp...)
			err := r.UnmarshalJSON(own)
			if !bytes.Equal(own, sp) {
				return "UnmarshalJSON changes the document"
			}
			scribble(own)
			if d := check("directly", r, err); d != "" {
				return d
			}
			w.count("decoded")
		}
		var d docURN
		d.A = &urn.URN{ID: "x", SS: "y"}
		if err := json.Unmarshal(doc, &d); err != nil {
			return "decoding a document: " + err.Error()
		}
		if len(d.C) != 2 || d.D["k"] == nil {
			return "decoding a document: missing elements"
		}
		for _, r := range []*urn.URN{d.A, &d.B, &d.C[0], &d.C[1], d.D["k"]} {
			if x := check("in a document", r, nil); x != "" {
				return x
			}
		}
	case model.M8141:
		x := urn.URN8141{URN: u}
		if d := marshalsTo("URN8141", x, str); d != "" {
			return d
		}
		if d := marshalsTo("*URN8141", &x, str); d != "" {
			return d
		}
		doc, err := json.Marshal(doc8141{A: &x, B: x, C: []urn.URN8141{x, x}, D: map[string]*urn.URN8141{"k": &x}})
		if err != nil {
			return "marshaling a document: " + err.Error()
		}
		want := view(u)
		check := func(how string, r *urn.URN8141, err error) string {
			if err != nil {
				return fmt.Sprintf("decoding %s: %v", how, err)
			}
			if d := diffView("decoded "+how, view(r.URN), want); d != "" {
				return d
			}
			if !r.Equal(u) || !u.Equal(r.URN) {
				return "the decoded value is not equal (" + how + ")"
			}
			return ""
		}
		for i, sp := range spellings(str) {
			other, _ := parseM(model.M8141, []byte("urn:zz:c%AA?+r?=q#f"))
			otherBefore := view(other)
			plain, _ := urn.Parse([]byte("urn:zz:c"))
			for k, r := range []*urn.URN8141{{}, {URN: other}, {URN: plain}} {
				if k > 0 && i > 0 && k != i {
					continue
				}
				err := json.Unmarshal(sp, r)
				if d := check(fmt.Sprintf("spelling %d into receiver %d", i, k), r, err); d != "" {
					return d
				}
			}
			// What they were made of is theirs no more
			if d := diffView("the URN that another URN8141 had before decoding into it", view(other), otherBefore); d != "" {
				return d
			}
			r := &urn.URN8141{}
			if err := json.Unmarshal([]byte(usable[m]), r); err != nil {
				return err.Error()
			}
			kept := *r
			keptView := view(kept.URN)
			own := append([]byte(nil), sp...)
			err := r.UnmarshalJSON(own)
			if !bytes.Equal(own, sp) {
				return "UnmarshalJSON changes the document"
			}
			scribble(own)
			if d := diffView("a copy made of the receiver before decoding into it", view(kept.URN), keptView); d != "" {
				return d
			}
			w.count("decoded")
			if d := check("directly", r, err); d != "" {
				return d
			}
		}
		var d doc8141
		if err := json.Unmarshal(doc, &d); err != nil {
			return "decoding a document: " + err.Error()
		}
		if len(d.C) != 2 || d.D["k"] == nil {
			return "decoding a document: missing elements"
		}
		for _, r := range []*urn.URN8141{d.A, &d.B, &d.C[0], &d.C[1], d.D["k"]} {
			if x := check("in a document", r, nil); x != "" {
				return x
			}
		}
	case model.M7643:
		s := u.SCIM()
		if s == nil {
			return ""
		}
		sstr := s.String()
		if d := marshalsTo("*SCIM", s, sstr); d != "" {
			return d
		}
		if d := marshalsTo("SCIM", *s, sstr); d != "" {
			return d
		}
		doc, err := json.Marshal(docSCIM{A: s, B: *s, C: []urn.SCIM{*s, *s}, D: map[string]*urn.SCIM{"k": s}})
		if err != nil {
			return "marshaling a document: " + err.Error()
		}
		want := scimView(s)
		check := func(how string, r *urn.SCIM, err error) string {
			if err != nil {
				return fmt.Sprintf("decoding %s: %v", how, err)
			}
			return diffView("decoded "+how, scimView(r), want)
		}
		for i, sp := range append(spellings(sstr), jsonString(str)) {
			cpy := *s
			for k, r := range []*urn.SCIM{{}, {Type: scimschema.Param, Name: "old", Other: "stuff"}, &cpy} {
				err := json.Unmarshal(sp, r)
				if d := check(fmt.Sprintf("spelling %d into receiver %d", i, k), r, err); d != "" {
					return d
				}
			}
			r := &urn.SCIM{Name: "old", Other: "stuff"}
			own := append([]byte(nil), sp...)
			err := r.UnmarshalJSON(own)
			if !bytes.Equal(own, sp) {
				return "UnmarshalJSON changes the document"
			}
			scribble(own)
			w.count("decoded")
			if d := check("directly", r, err); d != "" {
				return d
			}
		}
		var d docSCIM
		if err := json.Unmarshal(doc, &d); err != nil {
			return "decoding a document: " + err.Error()
		}
		if len(d.C) != 2 || d.D["k"] == nil {
			return "decoding a document: missing elements"
		}
		for _, r := range []*urn.SCIM{d.A, &d.B, &d.C[0], &d.C[1], d.D["k"]} {
			if x := check("in a document", r, nil); x != "" {
				return x
			}
		}
	}
	return ""
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// marshalOdd marshals the zero values and every hand-built value over a list of odd strings.
func marshalOdd(e *Env) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("marshaling panics: %v", r)
		}
	}()
	var n int64
	// raw: the exact string, as long as it is valid UTF-8
	for _, x := range []struct {
		what string
		v    interface{}
		want string
	}{
		{"URN{}", urn.URN{}, ""}, {"&URN{}", &urn.URN{}, ""}, {"URN8141{}", urn.URN8141{}, ""}, {"&URN8141{}", &urn.URN8141{}, ""}, {"URN8141{&URN{}}", urn.URN8141{URN: &urn.URN{}}, ""},
	} {
		n++
		if d := marshalsTo(x.what, x.v, x.want); d != "" {
			return d
		}
	}
	for _, v := range []interface{}{urn.SCIM{}, &urn.SCIM{}, docURN{}, &docURN{}, doc8141{}, &doc8141{}, docSCIM{}, &docSCIM{}, []urn.URN8141{{}, {}}, map[string]urn.URN8141{"a": {}},
		[]*urn.URN{nil}, []*urn.URN8141{nil}, []*urn.SCIM{nil}, struct{ urn.URN }{}, struct{ *urn.URN }{&urn.URN{}}, struct{ X interface{} }{urn.URN8141{}}} {
		n++
		b, err := json.Marshal(v)
		if err != nil || !json.Valid(b) {
			return fmt.Sprintf("marshaling %T: %s, %v", v, head(string(b), 100), err)
		}
	}
	odd := []string{"", "a", "%", "%A", "%AB", "%%%", "\"", "\\", "<>&", "\x00", "\xff", "é", "\u2028", "a:b", "?+", "?=", "#", strings.Repeat("%AB", 300)}
	for _, id := range odd {
		for _, ss := range odd {
			n++
			u := urn.URN{ID: id, SS: ss}
			str := u.String()
			for _, v := range []interface{}{u, &u, urn.URN8141{URN: &u}, u.Normalize()} {
				b, err := json.Marshal(v)
				if err != nil || !json.Valid(b) {
					return fmt.Sprintf("marshaling %T with ID %q and SS %q: %s, %v", v, id, ss, b, err)
				}
			}
			if id != "" && ss != "" && str != "urn:"+id+":"+ss {
				return fmt.Sprintf("the string form of a URN with ID %q and SS %q is %q", id, ss, str)
			}
			for _, t := range []scimschema.Type{-1, 0, 1, 2, 3, 4, math.MaxInt32} {
				s := urn.SCIM{Type: t, Name: id, Other: ss}
				for _, v := range []interface{}{s, &s} {
					b, err := json.Marshal(v)
					if err != nil || !json.Valid(b) {
						return fmt.Sprintf("marshaling %T with type %d, name %q and other %q: %s, %v", v, t, id, ss, b, err)
					}
				}
			}
		}
	}
	atomic.AddInt64(&e.stats.Evaluations, n)
	atomic.AddInt64(&e.stats.Traces, n)
	e.outcome("zero and odd hand-built values marshaled", n)
	return ""
}

// receivers for U09: what they are, a snapshot, and how to decode into them.
type receiver struct {
	name string
	mode model.Mode
	dec  func(b []byte, direct bool) error
	snap func() snapshot
}

// snapshot is what can be seen of a receiver.
type snapshot struct {
	same bool // the embedded pointer is the original one
	v, n View
}

func (s snapshot) String() string { return fmt.Sprintf("%v %s normalized %s", s.same, s.v, s.n) }

func mkReceivers() []receiver {
	var rs []receiver
	addURN := func(name string, u *urn.URN) {
		rs = append(rs, receiver{name, model.M2141, func(b []byte, direct bool) error {
			if direct {
				return u.UnmarshalJSON(b)
			}
			return json.Unmarshal(b, u)
		}, func() snapshot { return snapshot{true, view(u), view(u.Normalize())} }})
	}
	addURN("URN{}", &urn.URN{})
	p, _ := urn.Parse([]byte("URN:Foo:b%AAr"))
	if p != nil {
		addURN("a parsed URN", p)
	}
	sc, _ := parseM(model.M7643, []byte("URN:ietf:params:scim:api:n:o"))
	if sc != nil {
		addURN("a parsed SCIM URN", sc)
	}
	c, _ := parseM(model.M8141, []byte("URN:Foo:b%AAr?+r?=q#f"))
	if c != nil {
		addURN("a parsed RFC 8141 URN", c)
	}
	add8 := func(name string, x *urn.URN8141) {
		inner := x.URN
		rs = append(rs, receiver{name, model.M8141, func(b []byte, direct bool) error {
			if direct {
				return x.UnmarshalJSON(b)
			}
			return json.Unmarshal(b, x)
		}, func() snapshot {
			if x.URN == nil {
				return snapshot{x.URN == inner, View{Nil: true}, View{}}
			}
			return snapshot{x.URN == inner, view(x.URN), view(x.URN.Normalize())}
		}})
	}
	add8("URN8141{}", &urn.URN8141{})
	c2, _ := parseM(model.M8141, []byte("URN:Foo:b%AAr?+r?=q#f"))
	if c2 != nil {
		add8("a parsed URN8141", &urn.URN8141{URN: c2})
	}
	addS := func(name string, s *urn.SCIM) {
		rs = append(rs, receiver{name, model.M7643, func(b []byte, direct bool) error {
			if direct {
				return s.UnmarshalJSON(b)
			}
			return json.Unmarshal(b, s)
		}, func() snapshot { return snapshot{true, scimView(s), View{}} }})
	}
	addS("SCIM{}", &urn.SCIM{})
	addS("a SCIM", &urn.SCIM{Type: scimschema.Param, Name: "Old", Other: "o%AA"})
	return rs
}

var usable = map[model.Mode]string{model.M2141: `"urn:new:v%41"`, model.M8141: `"urn:new:v?+r1?=q1#f1"`, model.M7643: `"urn:ietf:params:scim:schemas:new:v"`}

// decodeInto decodes a document into every receiver of the mode (0: all), comparing with what is expected.
func decodeInto(w *Worker, only model.Mode, doc []byte, valid func(m model.Mode) bool) string {
	rs, _ := w.slots["receivers"].([]receiver)
	if rs == nil {
		rs = mkReceivers()
		w.slots["receivers"] = rs
		snaps := make([]snapshot, len(rs))
		for i := range rs {
			snaps[i] = rs[i].snap()
		}
		w.slots["snaps"] = snaps
	}
	snaps := w.slots["snaps"].([]snapshot)
	for i := range rs {
		r := &rs[i]
		if only != 0 && r.mode != only {
			continue
		}
		ok := valid(r.mode)
		for _, direct := range []bool{false, true} {
			if direct && only != 0 && i%2 == 0 {
				continue // directly into the populated receivers only
			}
			if ok {
				// Decode into a new receiver, this one is kept as it is
				fresh := mkReceivers()[i]
				if err := fresh.dec(doc, direct); err != nil {
					return fmt.Sprintf("decoding the valid %s into %s: %v", head(string(doc), 300), r.name, err)
				}
				continue
			}
			w.traces++
			keep := append([]byte(nil), doc...)
			err := r.dec(doc, direct)
			if err == nil {
				delete(w.slots, "receivers")
				return fmt.Sprintf("no error decoding %s into %s (direct call: %v)", head(string(keep), 300), r.name, direct)
			}
			_ = err.Error()
			if !bytes.Equal(keep, doc) {
				return fmt.Sprintf("decoding %s into %s changed the document", head(string(keep), 300), r.name)
			}
			if s := r.snap(); s != snaps[i] {
				delete(w.slots, "receivers")
				return fmt.Sprintf("failing to decode %s into %s (direct call: %v) changed it: %s, was %s", head(string(keep), 300), r.name, direct, s, snaps[i])
			}
		}
		if !ok {
			n, _ := w.slots["n"].(int)
			w.slots["n"] = n + 1
			if n%257 == 0 {
				// Still usable, and then good as new
				fresh := mkReceivers()[i]
				_ = fresh.dec(doc, false)
				if err := fresh.dec([]byte(usable[r.mode]), false); err != nil {
					return fmt.Sprintf("after failing to decode %s, %s cannot decode %s: %v", head(string(doc), 300), r.name, usable[r.mode], err)
				}
				other := mkReceivers()[i]
				_ = other.dec([]byte(usable[r.mode]), false)
				a, b := fresh.snap(), other.snap()
				a.same, b.same = true, true
				if a != b {
					return fmt.Sprintf("after failing to decode %s, %s decodes %s into %s, want %s", head(string(doc), 300), r.name, usable[r.mode], a, b)
				}
			}
		}
	}
	return ""
}

// U09 on the JSON string of an input that is no URN of the type
func checkDecodeReject(w *Worker, m model.Mode, in []byte) string {
	if len(in) > 140000 {
		return ""
	}
	if w.env.tabs[m].Run(in).Cat == model.OK {
		return ""
	}
	doc := jsonString(string(in))
	var s string
	if err := json.Unmarshal(doc, &s); err != nil {
		return ""
	}
	if w.env.tabs[m].Run([]byte(s)).Cat == model.OK {
		return ""
	}
	return decodeInto(w, m, doc, func(model.Mode) bool { return false })
}

// checkJSONDoc decides one document, of any shape, for every type.
func checkJSONDoc(e *Env, doc []byte) (msg string) {
	w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
	return checkJSONDocW(w, doc)
}

func checkJSONDocW(w *Worker, doc []byte) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("decoding %q panics: %v", doc, r)
		}
	}()
	var x interface{}
	err := json.Unmarshal(doc, &x)
	s, isStr := x.(string)
	return decodeInto(w, 0, doc, func(m model.Mode) bool {
		return err == nil && isStr && w.env.tabs[m].Run([]byte(s)).Cat == model.OK
	})
}

// jsonWords decodes every word of up to k JSON-ish tokens.
func (e *Env) jsonWords() {
	toks := []string{`"urn:ab:c"`, `"URN:ietf:params:scim:api:n"`, `"urn:ab:c?+r"`, `""`, `"x"`, `null`, `true`, `0`, `-1.5e3`, `{`, `}`, `[`, `]`, `,`, `:`, ` `, "\n", `"`, `\`, `\u0075`, `\n`, `urn:ab:c`, `'urn:ab:c'`, "\x00", "\xff", "\xef\xbb\xbf", `"k"`, `"urn:ab:`, `\u0063"`, `\ud800`, `//`}
	k := 3
	if e.Thorough {
		k = 4
	}
	var n, valid int64
	e.parallel(len(toks)+1, func(i int) {
		w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
		run := func(doc []byte) {
			if e.stopped() {
				return
			}
			atomic.AddInt64(&n, 1)
			if msg := checkJSONDocW(w, doc); msg != "" {
				e.report(-1, &Viol{Check: "json", Input: append([]byte(nil), doc...), Message: msg})
			}
			if json.Valid(doc) {
				atomic.AddInt64(&valid, 1)
			}
		}
		if i == len(toks) {
			run([]byte{})
			run(nil)
			return
		}
		var buf []byte
		tokenWords(toks, k-1, func(x []byte) {
			buf = append(append(buf[:0], toks[i]...), x...)
			run(buf)
		})
		atomic.AddInt64(&e.stats.Traces, w.traces)
	})
	shapes := e.jsonShapes()
	e.parallel(32, func(i int) {
		w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
		for j := i; j < len(shapes); j += 32 {
			if e.stopped() {
				return
			}
			doc := []byte(shapes[j])
			atomic.AddInt64(&n, 1)
			if msg := checkJSONDocW(w, doc); msg != "" {
				e.report(-1, &Viol{Check: "json", Input: doc, Message: msg})
			}
			if json.Valid(doc) {
				atomic.AddInt64(&valid, 1)
			}
		}
		atomic.AddInt64(&e.stats.Traces, w.traces)
	})
	e.stats.Spaces["JSON-ish documents"] = map[string]int64{"documents": n, "well_formed": valid}
	e.stats.Evaluations += n
}

// jsonShapes are documents that have a URN in them, or its parts: under any key of the sources and some common ones, in lists,
// bare, wrapped.
func (e *Env) jsonShapes() (docs []string) {
	set := map[string]bool{}
	put := func(format string, args ...interface{}) {
		if d := fmt.Sprintf(format, args...); !set[d] {
			set[d] = true
			docs = append(docs, d)
		}
	}
	strs := []string{`"urn:ab:c"`, `"urn:ab:c?+r?=q#f"`, `"urn:ietf:params:scim:api:n:o"`}
	common := strings.Fields("urn URN uri URI url id ID Id _id @id $id $ref ref href value Value v string String s text content name Name nid nss NID NSS ID SS id ss scheme prefix type Type kind other Other schema schemas data result raw x 0")
	keys := append([]string{""}, common...)
	h := harvest(false)
	for _, s := range append(append([]string{}, h.Names...), h.Strings...) {
		if len(s) <= 24 {
			keys = append(keys, string(jsonString(s)[1:len(jsonString(s))-1]))
		}
	}
	for _, s := range strs {
		for _, k := range keys {
			put(`{"%s":%s}`, k, s)
			put(` {"a":1,"%s": %s }`, k, s)
			put(`[{"%s":%s}]`, k, s)
			put(`{"%s":[%s]}`, k, s)
			put(`{"a":{"%s":%s}}`, k, s)
			put(`{"%s":%s,"Valid":true}`, k, s)
		}
		raw := s[1 : len(s)-1]
		for _, a := range affixes {
			for _, b := range affixes {
				put("%s%s%s", a, s, b)
				put("%s%s%s", a, raw, b)
				put("\"%s%s%s\"", a, raw, b)
			}
		}
		for _, d := range []string{"[%s]", "[[%s]]", "[%s,%[1]s]", "[null,%s]", "[%s,]", "{%s}", "{%s:1}", "{%s:%[1]s}", "(%s)", "%s;", "%s%[1]s", "%s %[1]s", "%s,%[1]s", "// c\n%s", "/* */%s", "%s // c", "b%s", "u%s", "r%s", "<![CDATA[%s]]>", "--- %s", "=%s", "urn = %s"} {
			put(d, s)
			put(d, raw)
		}
	}
	for _, v := range []string{"null", "true", "false", "0", "1", "-0", "1e3", "[]", "{}", "[[]]", "[{}]", `[""]`, `{"":""}`, `"null"`, `""`, `" "`, `"\u0000"`} {
		put("%s", v)
		for _, k := range keys {
			put(`{"%s":%s}`, k, v)
		}
	}
	// The parts of one
	var some []string
	for _, k := range keys {
		if len(k) > 0 && len(k) <= 8 && len(some) < 260 {
			some = append(some, k)
		}
	}
	for _, a := range some {
		for _, b := range some {
			put(`{"%s":"ab","%s":"c"}`, a, b)
		}
	}
	for _, t := range []string{`"api"`, "2", `"2"`} {
		for _, a := range []string{"Type", "type", "kind", "t"} {
			for _, b := range []string{"Name", "name", "n"} {
				for _, c := range []string{"Other", "other", "rest", "o"} {
					put(`{"%s":%s,"%s":"n"}`, a, t, b)
					put(`{"%s":%s,"%s":"n","%s":"o"}`, a, t, b, c)
				}
			}
		}
	}
	return docs
}

// jsonEscapes: strings with one escape, or what looks like one, at every position.
func (e *Env) jsonEscapes(check func(w *Worker, doc []byte) string) {
	bases := []string{"urn:ab:c%4b", "urn:ab:c?+r?=q#f", "urn:ietf:params:scim:api:n:o%4b", "Urn:a-b:@"}
	tails := []string{"", "4", "41", "041", "141", "0041", "0075", "00041", "000041", "00000041", "{41}", "u0041", "d83d\\ude00", "ud83d"}
	if e.Thorough {
		bases = append(bases, "urn:ab:c#", "URN:ietf:params:scim:schemas:n", "urn:0:%zZ", "urn:ab:c/?=/")
	}
	var n int64
	e.parallel(len(bases)*256, func(i int) {
		w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
		base, c := bases[i/256], byte(i)
		var doc []byte
		run := func(parts ...string) {
			if e.stopped() {
				return
			}
			doc = append(doc[:0], '"')
			for _, p := range parts {
				doc = append(doc, p...)
			}
			doc = append(doc, '"')
			atomic.AddInt64(&n, 1)
			if msg := check(w, doc); msg != "" {
				e.report(-1, &Viol{Check: "json", Input: append([]byte(nil), doc...), Message: msg})
			}
		}
		for k := 0; k <= len(base); k++ {
			pre, suf := base[:k], base[k:]
			cut := suf
			if cut != "" {
				cut = cut[1:]
			}
			run(pre, string([]byte{c}), suf)
			run(pre, string([]byte{c}), cut)
			run(pre, fmt.Sprintf("\\u%04x", c), cut)
			run(pre, fmt.Sprintf("\\u%02X%02X", c, byte(k)), cut)
			run(pre, fmt.Sprintf("\\u%02x%02x", c, 'a'), cut)
			for _, t := range tails {
				run(pre, string([]byte{'\\', c}), t, suf)
				run(pre, string([]byte{'\\', c}), t, cut)
			}
		}
		atomic.AddInt64(&e.stats.Traces, w.traces)
	})
	e.stats.Spaces["one escape at every position"] = map[string]int64{"documents": n}
	e.stats.Evaluations += n
}

// U08: what a document decodes to is what its string parses to.
func checkJSONValue(w *Worker, doc []byte) string { return checkJSONValueOf(w, doc, allModes) }

func checkJSONValueOf(w *Worker, doc []byte, modes []model.Mode) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("decoding %q panics: %v", doc, r)
		}
	}()
	var s string
	if json.Unmarshal(doc, &s) != nil {
		return ""
	}
	for _, m := range modes {
		if w.env.tabs[m].Run([]byte(s)).Cat != model.OK {
			continue
		}
		p, _ := parseM(m, []byte(s))
		if p == nil {
			continue // another property
		}
		w.traces++
		for _, direct := range []bool{false, true} {
			dec := func(x json.Unmarshaler) error {
				if direct {
					return x.UnmarshalJSON(doc)
				}
				return json.Unmarshal(doc, x)
			}
			var err error
			got, want := View{}, view(p)
			switch m {
			case model.M2141:
				var u urn.URN
				err = dec(&u)
				got = view(&u)
			case model.M8141:
				var u urn.URN8141
				if err = dec(&u); err == nil && u.URN != nil {
					got = view(u.URN)
				}
			default:
				var u urn.SCIM
				err = dec(&u)
				got, want = scimView(&u), scimView(p.SCIM())
			}
			if err != nil {
				return fmt.Sprintf("decoding %s (direct call: %v): %v", head(string(doc), 300), direct, err)
			}
			if d := diffView(fmt.Sprintf("decoded %s (direct call: %v)", head(string(doc), 300), direct), got, want); d != "" {
				return d
			}
		}
	}
	return ""
}

// longInvalid are long inputs with something odd before, within or after them.
func longInvalid() (ts []Task) {
	ns := []int{60, 100, 130, 260, 520, 1030, 2050, 4100, 8200, 17000, 33000, 66000, 132000}
	for _, v := range harvest(false).Ints {
		if v > 300 && v < 300000 {
			ns = append(ns, v, v+10)
		}
	}
	for _, n := range ns {
		n := n
		ts = append(ts, Task{Space: "long inputs, something odd in them", Run: func(emit func([]byte)) {
			for _, p := range []string{"urn:ab:", "urn:ietf:params:scim:api:n", "urn:ab:c?+r", "urn:ab:c?=", "urn:ab:c#"} {
				for _, t := range []string{"a", "b%4C"} {
					long := strings.Repeat(t, n/len(t))
					for _, odd := range []string{" ", "\n", "\r\n", "\t", "\x00", "%", "%4", "\"", "\\", "é", "\ufffd", "<", "?", "?+", "?=", "#", "##", "{", "/ "} {
						emit([]byte(p + long + odd))
						emit([]byte(odd + p + long))
						emit([]byte(p + long + odd + "a"))
						if n < 10000 {
							emit([]byte(p + "a" + odd + long))
							emit([]byte(p + long + odd + long))
							emit([]byte("\t" + p + long + odd))
						}
					}
				}
			}
		}})
	}
	return ts
}
