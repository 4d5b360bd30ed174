package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"sync"

	urn "github.com/leodido/go-urn"

	"urnverif/model"
)

// inputProp registers a property decided input by input.
func inputProp(id string, modes []model.Mode, tasks func(e *Env) []Task, check Check, assume ...string) {
	props[id] = &Prop{
		Run: func(e *Env) {
			e.stats.Assumptions = assume
			ts := tasks(e)
			e.runHistories()
			e.exploreInputs(ts, modes, check)
			e.finish(modes)
		},
		Replay: func(v *Viol) string {
			if v.Check == "history" {
				return replayHistory(id, v)
			}
			e := newEnv(id, "quick", 1, 1)
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, check)
		},
	}
}

func init() {
	for _, x := range []struct {
		id string
		m  model.Mode
	}{{"U01", model.M2141}, {"U02", model.M8141}, {"U03", model.M7643}} {
		ms := []model.Mode{x.m}
		inputProp(x.id, ms, func(e *Env) []Task { return e.standard(ms) }, checkLanguage,
			"the reference automaton (mc/model) is the grammar the property states; its states and transitions are all visited")
	}
	inputProp("U04", allModes, func(e *Env) []Task { return e.standard(allModes) }, checkParts,
		"inputs the reference automaton accepts; the parts are recomputed from the input by independent string operations")
	inputProp("U05", allModes, func(e *Env) []Task { return e.standard(allModes) }, checkSCIM)
	inputProp("U10", allModes, func(e *Env) []Task {
		if e.Thorough {
			return e.standard(allModes)
		}
		ts := e.light(allModes)
		return append(ts, e.spaceW(model.M8141, 1, 1)...)
	}, checkTotal)
	inputProp("U11", allModes, func(e *Env) []Task { return e.standard(allModes) }, checkError,
		"the expected column and blamed part come from the reference automaton; the messages are only compared with each other and searched for the name of the part")
	inputProp("U21", allModes, func(e *Env) []Task { return e.standard(allModes) }, checkCross)
}

// U01, U02, U03
func checkLanguage(w *Worker, m model.Mode, in []byte) string {
	want := w.env.tabs[m].Run(in).Cat == model.OK
	u, err := parseM(m, in)
	w.traces += 2
	if got := u != nil && err == nil; got != want {
		return fmt.Sprintf("%s: machine accepts=%v (error %s), grammar says %v", m, got, errText(err), want)
	}
	p, ok := parseP(m, in)
	if got := ok && p != nil; got != want {
		return fmt.Sprintf("%s: Parse accepts=%v, grammar says %v", m, got, want)
	}
	if m == model.M2141 {
		d, err := urn.NewMachine().Parse(in)
		w.traces++
		if got := d != nil && err == nil; got != want {
			return fmt.Sprintf("%s: machine without options accepts=%v (error %s), grammar says %v", m, got, errText(err), want)
		}
	}
	return ""
}

// U04
func checkParts(w *Worker, m model.Mode, in []byte) string {
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	s := string(in)
	want := expectView(m, s)
	p := model.Decompose(m, s)
	back := s
	if p.HasHash && p.F == "" {
		back = s[:len(s)-1]
	}
	if want.Str != back {
		return "harness: the model's parts do not reassemble to the input"
	}
	u, _ := parseM(m, in)
	v, _ := parseP(m, in)
	w.traces += 2
	for i, x := range []*urn.URN{u, v} {
		if x == nil {
			continue // the language properties are about this
		}
		who := []string{"machine", "Parse"}[i]
		got := view(x)
		// The SCIM view is another property
		got.HasSCIM, got.IsSCIM, got.Type, got.Name, got.Other, got.SCIMStr = want.HasSCIM, want.IsSCIM, want.Type, want.Name, want.Other, want.SCIMStr
		if d := diffView(m.String()+" "+who, got, want); d != "" {
			return d
		}
	}
	if u == nil {
		return ""
	}
	again, err := parseM(m, []byte(u.String()))
	w.traces++
	if again == nil || err != nil {
		return fmt.Sprintf("%s: the string form %q is not accepted again: %s", m, clip(u.String()), errText(err))
	}
	a := view(again)
	b := view(u)
	return diffView(m.String()+" parsing the string form again", a, b)
}

// U05
func checkSCIM(w *Worker, m model.Mode, in []byte) string {
	if w.env.tabs[m].Run(in).Cat != model.OK {
		return ""
	}
	u, _ := parseM(m, in)
	v, _ := parseP(m, in)
	w.traces += 2
	s := string(in)
	want := expectView(m, s)
	for i, x := range []*urn.URN{u, v} {
		if x == nil {
			continue
		}
		who := []string{"machine", "Parse"}[i]
		got := view(x)
		if m != model.M7643 {
			if got.HasSCIM || got.IsSCIM {
				return fmt.Sprintf("%s %s: a SCIM view %s", m, who, got)
			}
			continue
		}
		if got.HasSCIM != want.HasSCIM || got.IsSCIM != want.IsSCIM || got.Type != want.Type || got.Name != want.Name || got.Other != want.Other || got.SCIMStr != want.SCIMStr || got.ID != "ietf:params:scim" {
			return diffView(m.String()+" "+who, got, want)
		}
	}
	return ""
}

// U10
func checkTotal(w *Worker, m model.Mode, in []byte) string {
	for _, mode := range w.modesFor(m, in) {
		mc := urn.NewMachine(urn.WithParsingMode(mode))
		if mc.Error() != nil {
			return fmt.Sprintf("mode %d: a new machine has an error: %v", mode, mc.Error())
		}
		u, err := mc.Parse(in)
		if (u == nil) == (err == nil) {
			return fmt.Sprintf("mode %d: URN %v, error %s", mode, view(u), errText(err))
		}
		if !sameErr(mc.Error(), err) {
			return fmt.Sprintf("mode %d: Error() is %s after a parse returning %s", mode, errText(mc.Error()), errText(err))
		}
		p, ok := urn.Parse(in, urn.WithParsingMode(mode))
		w.traces += 2
		if ok != (u != nil) || (p != nil) != ok {
			return fmt.Sprintf("mode %d: Parse returns (%v, %v), a fresh machine (%v, %s)", mode, view(p), ok, view(u), errText(err))
		}
		if ok {
			if d := diffView(fmt.Sprintf("mode %d: Parse vs machine", mode), view(p), view(u)); d != "" {
				return d
			}
		}
		if m == model.M2141 && mode == urn.RFC2141Only {
			p, ok := urn.Parse(in)
			if ok != (u != nil) || (p != nil) != ok {
				return fmt.Sprintf("Parse without options returns (%v, %v), a fresh RFC 2141 machine (%v, %s)", view(p), ok, view(u), errText(err))
			}
			mc := urn.NewMachine()
			x, err := mc.Parse(in)
			if (x == nil) == (err == nil) || !sameErr(mc.Error(), err) || ok != (x != nil) {
				return fmt.Sprintf("a machine without options returns (%v, %s), Error() %s, Parse without options %v", view(x), errText(err), errText(mc.Error()), ok)
			}
		}
		// The same parser again, so that the last error is that of the last parse
		if mode == realMode(m) {
			r, _ := w.slots["total"+m.String()].(urn.Machine)
			if r == nil {
				r = urn.NewMachine(urn.WithParsingMode(mode))
				w.slots["total"+m.String()] = r
			}
			x, err := r.Parse(in)
			w.traces++
			if (x == nil) == (err == nil) {
				return fmt.Sprintf("mode %d: reused parser: URN %v, error %s", mode, view(x), errText(err))
			}
			if !sameErr(r.Error(), err) {
				return fmt.Sprintf("mode %d: reused parser: Error() is %s after a parse returning %s", mode, errText(r.Error()), errText(err))
			}
		}
	}
	return ""
}

var oddModes = []urn.ParsingMode{urn.Default, -1, 4, 5, 7, 8, 255, 256, 1 << 31, -1 << 31}

// modesFor: the mode itself, and (with RFC 2141, as which they all parse) one of the odd mode
// values, picked by the input, or all of them for one input alone.
func (w *Worker) modesFor(m model.Mode, in []byte) []urn.ParsingMode {
	ms := []urn.ParsingMode{realMode(m)}
	if m == model.M2141 {
		if w.env.Workers == 1 {
			return append(ms, oddModes...)
		}
		h := uint32(2166136261)
		for _, c := range in {
			h = (h ^ uint32(c)) * 16777619
		}
		ms = append(ms, oddModes[(h>>8)%uint32(len(oddModes))])
	}
	return ms
}

// Messages: one per part, the same for every input, different for different parts.
type msgTable struct {
	mu    sync.RWMutex
	byCat [32]string
	owner map[string]model.Cat
}

var witnesses = map[model.Cat]struct {
	m  model.Mode
	in string
}{
	model.Prefix:         {model.M2141, "x"},
	model.NID:            {model.M2141, "urn:@"},
	model.NSS:            {model.M2141, "urn:a:/"},
	model.Hex:            {model.M2141, "urn:a:%/"},
	model.Reserved:       {model.M2141, "urn:urn:x"},
	model.ScimNS:         {model.M7643, "urn:x"},
	model.ScimType:       {model.M7643, "urn:ietf:params:scim:x"},
	model.ScimName:       {model.M7643, "urn:ietf:params:scim:api:/"},
	model.ScimOther:      {model.M7643, "urn:ietf:params:scim:api:n:/"},
	model.ScimIncomplete: {model.M7643, "urn:ietf:params:scim:api:n:"},
	model.Informal:       {model.M8141, "urn:urn-a:x"},
	model.NSS8:           {model.M8141, "urn:ab:?"},
	model.NID8:           {model.M8141, "urn:@"},
	model.RTwice:         {model.M8141, "urn:ab:c?+a?+b"},
	model.QTwice:         {model.M8141, "urn:ab:c?=a?=b"},
	model.RMal:           {model.M8141, "urn:ab:c?+/"},
	model.QMal:           {model.M8141, "urn:ab:c?=/"},
	model.CMal:           {model.M8141, "urn:ab:c?x"},
}

// keywords are how a user recognizes the part in the message.
var keywords = map[model.Cat][]string{
	model.Prefix:         {"prefix"},
	model.NID:            {"identifier"},
	model.NSS:            {"specific string"},
	model.Hex:            {"percent"},
	model.Reserved:       {"reserved"},
	model.ScimNS:         {"scim", "namespace"},
	model.ScimType:       {"scim", "type"},
	model.ScimName:       {"scim", "name"},
	model.ScimOther:      {"other", "scim"},
	model.ScimIncomplete: {"other", "empty"},
	model.Informal:       {"informal"},
	model.NSS8:           {"specific string"},
	model.NID8:           {"dentifier", "2"},
	model.RTwice:         {"only one r-component"},
	model.QTwice:         {"only one q-component"},
	model.RMal:           {"non-empty r-component"},
	model.QMal:           {"non-empty q-component"},
	model.CMal:           {"component"},
}

var msgs = &msgTable{owner: map[string]model.Cat{}}
var msgsOnce sync.Once
var msgsProblem string

func splitError(s string) (tmpl string, col int, ok bool) {
	i := strings.LastIndex(s, " [col ")
	if i < 0 || !strings.HasSuffix(s, "]") {
		return s, 0, false
	}
	n, err := strconv.Atoi(s[i+6 : len(s)-1])
	if err != nil {
		return s, 0, false
	}
	return s[:i], n, true
}

// learnMessages takes the message of each part from one rejected input each.
func learnMessages() {
	for c := model.Prefix; c <= model.CMal; c++ {
		wn := witnesses[c]
		_, err := parseM(wn.m, []byte(wn.in))
		if err == nil {
			msgsProblem = fmt.Sprintf("%s %q: no error, expected one about %s", wn.m, wn.in, c)
			return
		}
		t, _, ok := splitError(err.Error())
		if !ok {
			msgsProblem = fmt.Sprintf("%s %q: no column in the error %q", wn.m, wn.in, err)
			return
		}
		if o, dup := msgs.owner[t]; dup {
			msgsProblem = fmt.Sprintf("%s %q: the message about %s is the same as that about %s: %q", wn.m, wn.in, c, o, t)
			return
		}
		low := strings.ToLower(t)
		for _, k := range keywords[c] {
			if !strings.Contains(low, k) {
				msgsProblem = fmt.Sprintf("%s %q: the message about %s does not name it (%q): %q", wn.m, wn.in, c, k, t)
				return
			}
		}
		msgs.byCat[c] = t
		msgs.owner[t] = c
	}
}

// U11
func checkError(w *Worker, m model.Mode, in []byte) string {
	msgsOnce.Do(learnMessages)
	if msgsProblem != "" {
		return msgsProblem
	}
	o := w.env.tabs[m].Run(in)
	if o.Cat == model.OK {
		return ""
	}
	mc := urn.NewMachine(urn.WithParsingMode(realMode(m)))
	_, err := mc.Parse(in)
	w.traces++
	if err == nil {
		return "" // the language properties are about this
	}
	t, col, ok := splitError(err.Error())
	if !ok {
		return fmt.Sprintf("%s: no column in the error %q", m, err)
	}
	if col != o.Col {
		return fmt.Sprintf("%s: column %d, expected %d (%s): %q", m, col, o.Col, o.Cat, err)
	}
	if t != msgs.byCat[o.Cat] {
		return fmt.Sprintf("%s: expected the message about %s (%q), got %q", m, o.Cat, msgs.byCat[o.Cat], err)
	}
	return ""
}

// U21: on the raw input, once (in the mode of the first of the modes that has it)
func checkCross(w *Worker, m model.Mode, in []byte) string {
	if m != model.M2141 {
		// Also from the spaces of the other modes, but once for the common ones
		if w.env.tabs[m].Run(in).Cat != model.OK || w.env.tabs[model.M2141].Run(in).Cat == model.OK && m == model.M8141 {
			return ""
		}
	} else if len(in) < 5 || !bytes.EqualFold(in[:4], []byte("urn:")) {
		return ""
	}
	a, _ := parseM(model.M2141, in)
	s, _ := parseM(model.M7643, in)
	b, _ := parseM(model.M8141, in)
	w.traces += 3
	if s != nil && (a == nil || b == nil) {
		return fmt.Sprintf("accepted in RFC 7643 mode, in RFC 2141 mode: %v, in RFC 8141 mode: %v", a != nil, b != nil)
	}
	if a != nil && b == nil && len(in) > 5 {
		rest := string(in[4:])
		i := strings.IndexByte(rest, ':')
		if i < 0 {
			return "accepted in RFC 2141 mode without an identifier"
		}
		id := rest[:i]
		exempt := len(id) == 1 || strings.HasSuffix(id, "-")
		if len(id) > 4 && strings.EqualFold(id[:4], "urn-") && (id[4] == '0' || id[4]|0x20 >= 'a' && id[4]|0x20 <= 'z') {
			exempt = true
		}
		if !exempt {
			return "accepted in RFC 2141 mode but not in RFC 8141 mode"
		}
	}
	if a != nil && b != nil {
		w.count("accepted in RFC 2141 and RFC 8141 modes")
		x, y := view(a), view(b)
		if x.ID != y.ID || x.SS != y.SS || x.Str != y.Str {
			return fmt.Sprintf("RFC 2141 mode gives %s, RFC 8141 mode gives %s", x, y)
		}
		if x.R+x.Q+x.F+y.R+y.Q+y.F != "" {
			return fmt.Sprintf("components in %s or in %s", x, y)
		}
		nx, ny := view(a.Normalize()), view(b.Normalize())
		if nx.ID != ny.ID || nx.SS != ny.SS || nx.Str != ny.Str {
			return fmt.Sprintf("normal forms: RFC 2141 mode gives %s, RFC 8141 mode gives %s", nx, ny)
		}
	}
	if s != nil && a != nil {
		w.count("accepted in RFC 2141 and RFC 7643 modes")
		if s.String() != a.String() || s.Normalize().String() != a.Normalize().String() {
			return fmt.Sprintf("RFC 7643 mode gives %q and %q, RFC 2141 mode %q and %q", clip(s.String()), clip(s.Normalize().String()), clip(a.String()), clip(a.Normalize().String()))
		}
	}
	return ""
}
