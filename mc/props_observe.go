package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

// U16: every sequence of observations and edits on a small family of related URNs,
// against a model that only keeps, for each of them, the values it should have.

// cell is the model of one URN.
type cell struct {
	live    bool
	prefix  string
	id, ss  string
	r, q, f string
	kind    int // urn.Kind; -1: not specified
	scim    bool
	typ     string
	name    string
	other   string
	edited  bool // the SCIM view of an edited URN is not specified
}

func (c cell) str() string {
	if c.id == "" || c.ss == "" {
		return ""
	}
	return model.Parts{Prefix: c.prefix, NID: c.id, NSS: c.ss, R: c.r, Q: c.q, F: c.f}.String()
}

type world struct {
	u, n, c, d     *urn.URN // the URN, its kept normal form, a kept copy, a decoded one
	mu, mn, mc, md cell
	other          *urn.URN
	recv           *urn.URN
}

// starts are the URNs the sequences start from.
var starts = []struct {
	name string
	mode model.Mode
	in   string
}{
	{"RFC2141", model.M2141, "URN:Foo:a%4Bc%C3x"},
	{"RFC2141 without letters to lower", model.M2141, "urn:foo:x"},
	{"RFC8141", model.M8141, "Urn:Foo:a%4B/~?+R%4C?=Q#F%4D"},
	{"RFC8141 informal", model.M8141, "urn:URN-7:x%AA#"},
	{"SCIM", model.M7643, "URN:ietf:params:scim:api:Name:Oth%AA"},
	{"hand-built", 0, "Foo a%4Bc"},
	{"decoded", 4, "URN:Foo:a%4Bc%C3x"},
	{"decoded RFC8141", 5, "Urn:Foo:a%4B?+R%4C?=Q#F%4D"},
	{"normal form", 6, "URN:Foo:a%4Bc%C3x"},
}

func mkWorld(s int) *world {
	st := starts[s]
	w := &world{}
	setParsed := func(m model.Mode, in string) {
		p := model.Decompose(m, in)
		w.mu = cell{live: true, prefix: p.Prefix, id: p.NID, ss: p.NSS, r: p.R, q: p.Q, f: p.F, kind: int(realKind(m))}
		if m == model.M7643 {
			w.mu.scim, w.mu.typ, w.mu.name, w.mu.other = true, p.Type, p.Name, p.Other
		}
	}
	switch {
	case st.mode >= model.M2141 && st.mode <= model.M8141:
		w.u, _ = parseM(st.mode, []byte(st.in))
		setParsed(st.mode, st.in)
	case st.mode == 0:
		f := strings.Fields(st.in)
		w.u = &urn.URN{ID: f[0], SS: f[1]}
		w.mu = cell{live: true, prefix: "urn", id: f[0], ss: f[1]}
	case st.mode == 4:
		w.u = &urn.URN{}
		if json.Unmarshal(jsonString(st.in), w.u) != nil {
			return nil
		}
		setParsed(model.M2141, st.in)
	case st.mode == 5:
		var x urn.URN8141
		if json.Unmarshal(jsonString(st.in), &x) != nil {
			return nil
		}
		w.u = x.URN
		setParsed(model.M8141, st.in)
	case st.mode == 6:
		u, _ := parseM(model.M2141, []byte(st.in))
		if u == nil {
			return nil
		}
		w.u = u.Normalize()
		p := model.Decompose(model.M2141, st.in)
		w.mu = cell{live: true, prefix: "urn", id: model.LowerASCII(p.NID), ss: model.NormSS(p.NSS), kind: -1}
	}
	w.other, _ = urn.Parse([]byte("urn:FOO:a%4bc%c3x"))
	if w.u == nil || w.other == nil {
		return nil
	}
	w.recv = &urn.URN{}
	return w
}

func normCell(c cell) cell {
	return cell{live: true, prefix: "urn", id: model.LowerASCII(c.id), ss: model.NormSS(c.ss), kind: -1}
}

type action struct {
	name string
	do   func(w *world) string
}

func expectEq(what string, got, want interface{}) string {
	if got != want {
		return fmt.Sprintf("%s is %v, want %v", what, got, want)
	}
	return ""
}

// observeCell compares everything that can be seen of a URN with its model.
func observeCell(what string, u *urn.URN, c cell) string {
	if u == nil {
		return what + " is nil"
	}
	v := view(u)
	want := View{ID: c.id, SS: c.ss, Str: c.str(), R: c.r, Q: c.q, F: c.f, Kind: urn.Kind(c.kind)}
	if c.scim && !c.edited {
		want.IsSCIM, want.HasSCIM = true, true
		want.Type, want.Name, want.Other = realType[c.typ], c.name, c.other
		want.SCIMStr = "urn:ietf:params:scim:" + c.typ + ":" + c.name
		if c.other != "" {
			want.SCIMStr += ":" + c.other
		}
	}
	if c.kind < 0 {
		want.Kind = v.Kind
		want.IsSCIM, want.HasSCIM, want.Type, want.Name, want.Other, want.SCIMStr = v.IsSCIM, v.HasSCIM, v.Type, v.Name, v.Other, v.SCIMStr
	}
	if c.edited {
		want.HasSCIM, want.IsSCIM, want.Type, want.Name, want.Other, want.SCIMStr = v.HasSCIM, v.IsSCIM, v.Type, v.Name, v.Other, v.SCIMStr
	}
	if d := diffView(what, v, want); d != "" {
		return d
	}
	if d := diffView("the normal form of "+what, normView(u.Normalize()), expectNorm(c.id, c.ss)); d != "" {
		return d
	}
	b, err := json.Marshal(u)
	if err != nil {
		return "marshaling " + what + ": " + err.Error()
	}
	if w := string(jsonString(c.str())); string(b) != w {
		return fmt.Sprintf("%s marshals to %s, want %s", what, b, w)
	}
	return ""
}

func cellsEqual(a, b cell) bool { return key(a.id, a.ss) == key(b.id, b.ss) }

var otherCell = cell{live: true, prefix: "urn", id: "FOO", ss: "a%4bc%c3x"}

var actions = []action{
	{"u.String()", func(w *world) string { return expectEq("u.String()", w.u.String(), w.mu.str()) }},
	{"u.Normalize()", func(w *world) string {
		return diffView("u.Normalize()", normView(w.u.Normalize()), expectNorm(w.mu.id, w.mu.ss))
	}},
	{"n = u.Normalize()", func(w *world) string { w.n, w.mn = w.u.Normalize(), normCell(w.mu); return "" }},
	{"c = *u", func(w *world) string { x := *w.u; w.c, w.mc = &x, w.mu; return "" }},
	{"u.Equal(u)", func(w *world) string { return expectEq("u.Equal(u)", w.u.Equal(w.u), true) }},
	{"u.Equal(other)", func(w *world) string {
		return expectEq("u.Equal(other)", w.u.Equal(w.other), cellsEqual(w.mu, otherCell))
	}},
	{"other.Equal(u)", func(w *world) string {
		return expectEq("other.Equal(u)", w.other.Equal(w.u), cellsEqual(w.mu, otherCell))
	}},
	{"json.Marshal(u)", func(w *world) string {
		b, err := json.Marshal(w.u)
		if err != nil {
			return err.Error()
		}
		return expectEq("json.Marshal(u)", string(b), string(jsonString(w.mu.str())))
	}},
	{"json.Marshal(URN8141{u})", func(w *world) string {
		b, err := json.Marshal(urn.URN8141{URN: w.u})
		if err != nil {
			return err.Error()
		}
		return expectEq("json.Marshal(URN8141{u})", string(b), string(jsonString(w.mu.str())))
	}},
	{"u's accessors", func(w *world) string {
		got := fmt.Sprint(w.u.RComponent(), w.u.QComponent(), w.u.FComponent())
		if d := expectEq("u's components", got, fmt.Sprint(w.mu.r, w.mu.q, w.mu.f)); d != "" {
			return d
		}
		if w.mu.kind >= 0 && !w.mu.edited {
			if d := expectEq("u.IsSCIM()", w.u.IsSCIM(), w.mu.scim); d != "" {
				return d
			}
			if d := expectEq("u.RFC()", int(w.u.RFC()), w.mu.kind); d != "" {
				return d
			}
			if s := w.u.SCIM(); s != nil {
				b, err := json.Marshal(s)
				if err != nil {
					return err.Error()
				}
				return expectEq("json of u.SCIM()", string(b), string(jsonString(s.String())))
			}
		}
		return ""
	}},
	{"n.String(), n.Normalize()", func(w *world) string {
		if w.n == nil {
			return ""
		}
		if d := expectEq("n.String()", w.n.String(), w.mn.str()); d != "" {
			return d
		}
		return diffView("n.Normalize()", normView(w.n.Normalize()), expectNorm(w.mn.id, w.mn.ss))
	}},
	{"u.Equal(n), n.Equal(u)", func(w *world) string {
		if w.n == nil {
			return ""
		}
		want := cellsEqual(w.mu, w.mn)
		if d := expectEq("u.Equal(n)", w.u.Equal(w.n), want); d != "" {
			return d
		}
		return expectEq("n.Equal(u)", w.n.Equal(w.u), want)
	}},
	{"c.Equal(u), c.String()", func(w *world) string {
		if w.c == nil {
			return ""
		}
		if d := expectEq("c.String()", w.c.String(), w.mc.str()); d != "" {
			return d
		}
		return expectEq("c.Equal(u)", w.c.Equal(w.u), cellsEqual(w.mc, w.mu))
	}},
	// edits
	{"u.ID = New", func(w *world) string { w.u.ID, w.mu.id, w.mu.edited = "New", "New", true; return "" }},
	{"u.SS = s%ABt", func(w *world) string { w.u.SS, w.mu.ss, w.mu.edited = "s%ABt", "s%ABt", true; return "" }},
	{"u.ID, u.SS = FOO, a%4bc%c3x", func(w *world) string {
		w.u.ID, w.u.SS = "FOO", "a%4bc%c3x"
		w.mu.id, w.mu.ss, w.mu.edited = "FOO", "a%4bc%c3x", true
		return ""
	}},
	{"u.SS = empty", func(w *world) string { w.u.SS, w.mu.ss, w.mu.edited = "", "", true; return "" }},
	{"n.ID, n.SS = N2, m%CD", func(w *world) string {
		if w.n != nil {
			w.n.ID, w.n.SS = "N2", "m%CD"
			w.mn.id, w.mn.ss = "N2", "m%CD"
		}
		return ""
	}},
	{"c.SS = k%EF", func(w *world) string {
		if w.c != nil {
			w.c.SS, w.mc.ss, w.mc.edited = "k%EF", "k%EF", true
		}
		return ""
	}},
	{"decode urn:Zed:z%AA into u", func(w *world) string {
		if err := json.Unmarshal([]byte(`"URN:Zed:z%AA"`), w.u); err != nil {
			return err.Error()
		}
		w.mu = cell{live: true, prefix: "URN", id: "Zed", ss: "z%AA", kind: int(urn.RFC2141)}
		return ""
	}},
	{"decode urn:Yo:y%BB into c", func(w *world) string {
		if w.c == nil {
			return ""
		}
		if err := json.Unmarshal([]byte(`"urn:Yo:y%BB"`), w.c); err != nil {
			return err.Error()
		}
		w.mc = cell{live: true, prefix: "urn", id: "Yo", ss: "y%BB", kind: int(urn.RFC2141)}
		return ""
	}},
	{"fail to decode into u", func(w *world) string {
		if err := json.Unmarshal([]byte(`"urn:urn:x"`), w.u); err == nil {
			return "no error decoding urn:urn:x"
		}
		return ""
	}},
}

func observeSeq(start int, seq []int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v in %s", r, observeText(start, seq))
		}
	}()
	w := mkWorld(start)
	if w == nil {
		return ""
	}
	for i, a := range seq {
		if d := actions[a].do(w); d != "" {
			return fmt.Sprintf("step %d of %s: %s", i+1, observeText(start, seq), d)
		}
	}
	// In the end everything is what the model says
	if d := observeCell("u", w.u, w.mu); d != "" {
		return observeText(start, seq) + ": " + d
	}
	if w.n != nil {
		if d := observeCell("n", w.n, w.mn); d != "" {
			return observeText(start, seq) + ": " + d
		}
	}
	if w.c != nil {
		if d := observeCell("c", w.c, w.mc); d != "" {
			return observeText(start, seq) + ": " + d
		}
	}
	if d := observeCell("other", w.other, cell{live: true, prefix: "urn", id: "FOO", ss: "a%4bc%c3x", kind: int(urn.RFC2141)}); d != "" {
		return observeText(start, seq) + ": " + d
	}
	return ""
}

func observeText(start int, seq []int) string {
	s := []string{fmt.Sprintf("u: %s %q", starts[start].name, starts[start].in)}
	for _, a := range seq {
		s = append(s, actions[a].name)
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func runObserve(e *Env) {
	e.runHistories()
	depth := 4
	if e.Thorough {
		depth = 5
	}
	for s := range starts {
		w := mkWorld(s)
		if w == nil {
			e.mu.Lock()
			e.stats.Extra["unusable_start_"+starts[s].name] = true
			e.mu.Unlock()
		}
	}
	var n, steps int64
	e.parallel(len(starts)*len(actions), func(i int) {
		start, first := i/len(actions), i%len(actions)
		if msg := observeSeq(start, nil); msg != "" {
			e.report(0, &Viol{Check: "observe", Ops: []int{start}, Message: msg})
		}
		seq := []int{first}
		var rec func()
		rec = func() {
			if e.stopped() {
				return
			}
			if msg := observeSeq(start, seq); msg != "" {
				e.report(len(seq), &Viol{Check: "observe", Ops: append([]int{start}, seq...), Message: msg})
				return
			}
			atomic.AddInt64(&n, 1)
			atomic.AddInt64(&steps, int64(len(seq)))
			if len(seq) == depth {
				return
			}
			for a := range actions {
				seq = append(seq, a)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	})
	// The states of the model: (values of u, n, c) reachable
	states := map[string]bool{}
	e.stats.Spaces["sequences"] = map[string]int64{"starts": int64(len(starts)), "actions": int64(len(actions)), "depth": int64(depth), "sequences": n}
	for s := 0; s < len(starts) && e.first(); s++ {
		frontier := [][]int{nil}
		for d := 0; d <= depth && len(frontier) > 0; d++ {
			var next [][]int
			for _, seq := range frontier {
				w := mkWorld(s)
				if w == nil {
					continue
				}
				for _, a := range seq {
					func() {
						defer func() { recover() }()
						actions[a].do(w)
					}()
				}
				k := fmt.Sprint(s, w.mu, w.mn, w.mc)
				if states[k] {
					continue
				}
				states[k] = true
				for a := range actions {
					next = append(next, append(append([]int(nil), seq...), a))
				}
			}
			frontier = next
		}
	}
	e.stats.States = int64(len(states))
	e.stats.Transitions = steps
	e.stats.Evaluations += n
	e.stats.Traces += n
	e.runLong()
	var ts []Task
	if e.Thorough {
		ts = e.light(allModes)
	} else {
		ts = append(e.jsonTasks(), e.spacePump(allModes, e.extraLens())...)
	}
	e.exploreInputs(ts, allModes, checkObserve)
	e.finish(allModes)
	for i, s := range starts {
		e.outcome("sequences from "+s.name, n/int64(len(starts)))
		_ = i
	}
	for i := 0; i < 9; i++ {
		e.sample(fmt.Sprint(i), observeText(i, []int{i, (i*5 + 13) % len(actions), (i * 3) % len(actions)}))
	}
}

// observers look at a URN, each in one way.
var observers = []struct {
	name string
	do   func(u, other *urn.URN)
}{
	{"String", func(u, o *urn.URN) { u.String() }},
	{"Equal(other)", func(u, o *urn.URN) { u.Equal(o) }},
	{"other.Equal", func(u, o *urn.URN) { o.Equal(u) }},
	{"Equal(itself)", func(u, o *urn.URN) { u.Equal(u) }},
	{"Equal(nil)", func(u, o *urn.URN) { u.Equal(nil) }},
	{"Normalize", func(u, o *urn.URN) { u.Normalize() }},
	{"Equal(normal form)", func(u, o *urn.URN) { u.Equal(u.Normalize()) }},
	{"json.Marshal", func(u, o *urn.URN) { json.Marshal(u) }},
	{"json.Marshal(URN8141)", func(u, o *urn.URN) { json.Marshal(urn.URN8141{URN: u}) }},
	{"SCIM", func(u, o *urn.URN) {
		if s := u.SCIM(); s != nil {
			_ = s.String()
			json.Marshal(s)
		}
	}},
	{"accessors", func(u, o *urn.URN) { u.RComponent(); u.QComponent(); u.FComponent(); u.RFC(); u.IsSCIM() }},
}

// answers are what the observers give, to compare every one of the answers of a long history.
var answers = []struct {
	name string
	do   func(u, other *urn.URN) string
}{
	{"String", func(u, o *urn.URN) string { return u.String() }},
	{"Equal(other)", func(u, o *urn.URN) string { return fmt.Sprint(u.Equal(o)) }},
	{"other.Equal", func(u, o *urn.URN) string { return fmt.Sprint(o.Equal(u)) }},
	{"Equal(itself)", func(u, o *urn.URN) string { return fmt.Sprint(u.Equal(u)) }},
	{"Normalize", func(u, o *urn.URN) string { n := u.Normalize(); return n.ID + " " + n.SS + " " + n.String() }},
	{"Equal(normal form)", func(u, o *urn.URN) string { n := u.Normalize(); return fmt.Sprint(u.Equal(n), n.Equal(u)) }},
	{"json.Marshal", func(u, o *urn.URN) string { b, err := json.Marshal(u); return string(b) + errText(err) }},
	{"json.Marshal(URN8141)", func(u, o *urn.URN) string {
		b, err := json.Marshal(urn.URN8141{URN: u})
		return string(b) + errText(err)
	}},
	{"SCIM", func(u, o *urn.URN) string {
		s := u.SCIM()
		if s == nil {
			return ""
		}
		b, err := json.Marshal(s)
		return fmt.Sprint(s.Type, s.Name, " ", s.Other, " ", s.String(), " ") + string(b) + errText(err)
	}},
	{"accessors", func(u, o *urn.URN) string {
		return u.RComponent() + " " + u.QComponent() + " " + u.FComponent() + fmt.Sprint(u.RFC(), u.IsSCIM())
	}},
	{"every one", func(u, o *urn.URN) string { return view(u).String() }},
}

// longHistory asks one URN the same thing n times, every answer being the first one.
func longHistory(start, a, n int) (msg string) {
	i := 0
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s, asked %s: call %d: panic: %v", observeText(start, nil), answers[a].name, i+1, r)
		}
	}()
	w := mkWorld(start)
	if w == nil {
		return ""
	}
	first := strings.Clone(answers[a].do(w.u, w.other))
	for i = 1; i < n; i++ {
		if got := answers[a].do(w.u, w.other); got != first {
			return fmt.Sprintf("%s, asked %s: call %d gives %s, the first one gave %s", observeText(start, nil), answers[a].name, i+1, clip(got), clip(first))
		}
		if i&(i+1) == 0 || i%1000 == 0 {
			if d := observeCell(fmt.Sprintf("u after %d calls of %s", i+1, answers[a].name), w.u, w.mu); d != "" {
				return observeText(start, nil) + ": " + d
			}
		}
	}
	if d := observeCell(fmt.Sprintf("u after %d calls of %s", n, answers[a].name), w.u, w.mu); d != "" {
		return observeText(start, nil) + ": " + d
	}
	// and every operation of the short sequences, edits included, all of them on the same URN
	for _, act := range actions {
		d := act.do(w)
		if d == "" {
			d = observeCell("u", w.u, w.mu)
		}
		if d == "" && w.n != nil {
			d = observeCell("n", w.n, w.mn)
		}
		if d == "" && w.c != nil {
			d = observeCell("c", w.c, w.mc)
		}
		if d != "" {
			return fmt.Sprintf("%s: after %d calls of %s, up to %s: %s", observeText(start, nil), n, answers[a].name, act.name, d)
		}
	}
	return ""
}

// runLong: long histories of one URN (past 16 bits of calls), for every start and observer.
func (e *Env) runLong() {
	n := 70000
	if e.Thorough {
		n = 1 << 20
	}
	var calls int64
	e.parallel(len(starts)*len(answers), func(i int) {
		start, a := i/len(answers), i%len(answers)
		if e.stopped() {
			return
		}
		if msg := longHistory(start, a, n); msg != "" {
			e.report(n, &Viol{Check: "long", Ops: []int{start, a, n}, Message: msg})
		}
		atomic.AddInt64(&calls, int64(n))
	})
	e.stats.Spaces["long histories of one URN"] = map[string]int64{"starts": int64(len(starts)), "observers": int64(len(answers)), "calls each": int64(n), "calls": calls}
	e.stats.Evaluations += calls
}

// checkObserve: every observer on any accepted input, then the edits.
func checkObserve(w *Worker, m model.Mode, in []byte) string {
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	u, _ := parseM(m, in)
	if u == nil {
		return ""
	}
	other, _ := urn.Parse([]byte("urn:FOO:a%4bc%c3x"))
	if other == nil {
		return ""
	}
	w.traces++
	v, vo := view(u), view(other)
	c := *u
	for _, o := range observers {
		o.do(u, other)
		if d := diffView(m.String()+", after "+o.name, view(u), v); d != "" {
			return d
		}
		if d := diffView(m.String()+", a copy after "+o.name, view(&c), v); d != "" {
			return d
		}
	}
	if d := diffView(m.String()+", the other side", view(other), vo); d != "" {
		return d
	}
	n := u.Normalize()
	n2 := u.Normalize()
	vn := normView(n)
	for _, o := range observers {
		o.do(n, u)
		if d := diffView(m.String()+", the normal form after "+o.name, normView(n), vn); d != "" {
			return d
		}
	}
	// A copy of the SCIM view, edited
	if s := u.SCIM(); s != nil {
		sc := *s
		for _, x := range []struct {
			t           scimschema.Type
			name, other string
			want        string
		}{{scimschema.Param, "Zz", "", "urn:ietf:params:scim:param:Zz"}, {scimschema.Schemas, "Z", "o%AAo", "urn:ietf:params:scim:schemas:Z:o%AAo"}, {s.Type, s.Name, s.Other, s.String()}} {
			sc.Type, sc.Name, sc.Other = x.t, x.name, x.other
			if got := sc.String(); got != x.want {
				return fmt.Sprintf("%s: the string form of a SCIM value edited into %q is %q", m, clip(x.want), clip(got))
			}
			if d := marshalsTo("the edited SCIM value", sc, x.want); d != "" {
				return m.String() + ": " + d
			}
		}
		if d := diffView(m.String()+", after a copy of its SCIM view was edited", view(u), v); d != "" {
			return d
		}
	}
	// Editing the normal form
	n.ID, n.SS = "New", "k%EFz"
	if d := diffView(m.String()+", after its normal form was edited", view(u), v); d != "" {
		return d
	}
	if d := diffView(m.String()+", a second normal form after the first was edited", normView(n2), vn); d != "" {
		return d
	}
	if d := diffView(m.String()+", edited normal form", normView(n), View{ID: "New", SS: "k%EFz", Str: "urn:New:k%EFz"}); d != "" {
		return d
	}
	if d := diffView(m.String()+", normal form of the edited normal form", normView(n.Normalize()), expectNorm("New", "k%EFz")); d != "" {
		return d
	}
	// Editing the URN
	ve := v
	p := model.Decompose(m, string(in))
	edited := func(what string) string {
		p2 := p
		p2.NID, p2.NSS = u.ID, u.SS
		ve.ID, ve.SS, ve.Str = u.ID, u.SS, ""
		if u.ID != "" && u.SS != "" {
			ve.Str = p2.String()
		}
		got := view(u)
		// (the SCIM view of an edited URN is not specified)
		got.HasSCIM, got.Type, got.Name, got.Other, got.SCIMStr = ve.HasSCIM, ve.Type, ve.Name, ve.Other, ve.SCIMStr
		if d := diffView(m.String()+", "+what, got, ve); d != "" {
			return d
		}
		if d := marshalsTo("the URN, "+what, u, ve.Str); d != "" {
			return m.String() + ": " + d
		}
		if d := diffView(m.String()+", normal form, "+what, normView(u.Normalize()), expectNorm(u.ID, u.SS)); d != "" {
			return d
		}
		h := &urn.URN{ID: u.ID, SS: u.SS}
		if !u.Equal(h) || !h.Equal(u) {
			return m.String() + ": not equal to a URN of the same parts, " + what
		}
		if d := diffView(m.String()+", a normal form derived before, "+what, normView(n2), vn); d != "" {
			return d
		}
		return diffView(m.String()+", a copy made before, "+what, view(&c), v)
	}
	id, ss := u.ID, u.SS
	u.SS = ss + "%AAx"
	if d := edited("with a longer specific string"); d != "" {
		return d
	}
	u.SS = ss[:1]
	if d := edited("with a shorter specific string"); d != "" {
		return d
	}
	u.ID, u.SS = id+"-X", ss
	if d := edited("with another identifier"); d != "" {
		return d
	}
	// Edits that keep the lengths
	for _, at := range []int{0, len(ss) / 2, len(ss) - 1} {
		x := []byte(ss)
		x[at] = 'a' + (x[at]+1)%26
		u.ID, u.SS = id, string(x)
		if d := edited("with another byte in the specific string"); d != "" {
			return d
		}
	}
	x := []byte(id)
	x[len(x)-1] = 'a' + (x[len(x)-1]+1)%26
	u.ID, u.SS = string(x), ss
	if d := edited("with another last byte in the identifier"); d != "" {
		return d
	}
	u.ID, u.SS = id[:len(id)-1]+ss[:1], id[len(id)-1:]+ss[1:]
	if d := edited("with a byte moved"); d != "" {
		return d
	}
	u.ID, u.SS = id+ss[:1], ss[1:]
	if d := edited("with a byte moved to the identifier"); d != "" {
		return d
	}
	u.ID = ""
	if d := edited("without identifier"); d != "" {
		return d
	}
	u.ID, u.SS = id, ""
	if d := edited("without specific string"); d != "" {
		return d
	}
	u.ID, u.SS = id, ss
	if d := edited("with its own parts back"); d != "" {
		return d
	}
	w.count("observed and edited")
	return ""
}
