package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

// Histories: what a call gives depends on its arguments alone, whatever was called before it.
// One instance (a parser, a receiver, the package) goes through whole families of histories, made to
// confuse anything kept between calls: an input and everything at distance one from it, in the same
// array; inputs that common hash functions confuse; more distinct inputs than any bounded table holds,
// each asked for again at every distance.

// histResult is what one call shows, in a comparable form.
type histResult struct {
	v    View
	text string
	col  int
	a, b bool
}

func (r histResult) String() string {
	return fmt.Sprintf("%s %s [%d] %v %v", r.v, clip(r.text), r.col, r.a, r.b)
}

// histOp is one way of using the library.
type histOp struct {
	name  string
	props string // whose check runs it
	all   bool   // also given rejected inputs
	bytes bool   // takes the caller's bytes
	keeps bool   // keeps what it had when the input is rejected
	scim  bool   // only of SCIM values
	pair  bool   // depends on the input before it too
	mk    func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult)
}

func expParse(o model.Outcome, want View) histResult {
	if o.Cat == model.OK {
		return histResult{v: want, text: "<nil>"}
	}
	return histResult{v: View{Nil: true}, text: msgs.byCat[o.Cat], col: o.Col}
}

func gotParse(u *urn.URN, err error) histResult {
	r := histResult{v: view(u), text: "<nil>"}
	if err != nil {
		r.text, r.col, _ = splitError(err.Error())
	}
	return r
}

func partsOf(in []byte, m model.Mode) (id, ss string) {
	p := model.Decompose(m, string(in))
	return p.NID, p.NSS
}

var histOps = []histOp{
	{name: "a reused parser", props: "U13 U12", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		mc := urn.NewMachine(urn.WithParsingMode(realMode(m)))
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, err := mc.Parse(in)
			got, exp = gotParse(u, err), expParse(o, want)
			got.a, exp.a = sameErr(mc.Error(), err), true
			return
		}
	}},
	{name: "new parsers", props: "U13 U04 U05", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, err := parseM(m, in)
			return gotParse(u, err), expParse(o, want)
		}
	}},
	{name: "the verdicts of new parsers", props: "U01 U02 U03", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, _ := parseM(m, in)
			return histResult{a: u != nil}, histResult{a: o.Cat == model.OK}
		}
	}},
	{name: "the errors of new parsers", props: "U11", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, err := parseM(m, in)
			if u != nil || o.Cat == model.OK {
				return // the language properties are about this
			}
			return gotParse(u, err), expParse(o, want)
		}
	}},
	{name: "the package-level function", props: "U13 U10", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, ok := parseP(m, in)
			return histResult{v: view(u), a: ok}, histResult{v: expParse(o, want).v, a: o.Cat == model.OK}
		}
	}},
	{name: "decoding into new values", props: "U08 U09", all: true, bytes: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		var doc []byte
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			doc = docOf(doc, in)
			switch m {
			case model.M2141:
				var u urn.URN
				err := u.UnmarshalJSON(doc)
				got.v, got.a = view(&u), err == nil
				exp.v = view(&urn.URN{})
			case model.M8141:
				var u urn.URN8141
				err := u.UnmarshalJSON(doc)
				got.v, got.a = view(u.URN), err == nil
				exp.v = view(nil)
			default:
				var s urn.SCIM
				err := s.UnmarshalJSON(doc)
				got.v, got.a = View{Type: s.Type, Name: s.Name, Other: s.Other, SCIMStr: s.String()}, err == nil
				var z urn.SCIM
				exp.v = View{SCIMStr: z.String()}
			}
			if exp.a = o.Cat == model.OK; exp.a {
				exp.v = want
				if m == model.M7643 {
					exp.v = View{Type: want.Type, Name: want.Name, Other: want.Other, SCIMStr: want.SCIMStr}
				}
			}
			return
		}
	}},
	{name: "decoding into one value", props: "U08 U09", all: true, bytes: true, keeps: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		var u urn.URN
		var x urn.URN8141
		var s urn.SCIM
		last := map[model.Mode]View{model.M2141: view(&u), model.M8141: view(nil), model.M7643: {SCIMStr: s.String()}}[m]
		var doc []byte
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			doc = docOf(doc, in)
			var err error
			switch m {
			case model.M2141:
				err = u.UnmarshalJSON(doc)
				got.v = view(&u)
			case model.M8141:
				err = x.UnmarshalJSON(doc)
				got.v = view(x.URN)
			default:
				err = s.UnmarshalJSON(doc)
				got.v = View{Type: s.Type, Name: s.Name, Other: s.Other, SCIMStr: s.String()}
			}
			if o.Cat == model.OK {
				last = want
				if m == model.M7643 {
					last = View{Type: want.Type, Name: want.Name, Other: want.Other, SCIMStr: want.SCIMStr}
				}
			}
			got.a = err == nil
			return got, histResult{v: last, a: o.Cat == model.OK}
		}
	}},
	{name: "encoding", props: "U08 U16", mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			id, ss := partsOf(in, m)
			exp.text = string(jsonString("urn:" + id + ":" + ss))
			b, err := json.Marshal(&urn.URN{ID: id, SS: ss})
			if err != nil {
				b = []byte(err.Error())
			}
			b8, err := json.Marshal(urn.URN8141{URN: &urn.URN{ID: id, SS: ss}})
			if err != nil {
				b8 = []byte(err.Error())
			}
			got.text, got.a, exp.a = string(b), bytes.Equal(b, b8), true
			if m == model.M7643 {
				b, err := json.Marshal(&urn.SCIM{Type: want.Type, Name: want.Name, Other: want.Other})
				got.b, exp.b = err == nil && string(b) == exp.text, true
			}
			return
		}
	}},
	{name: "writing", props: "U23 U16", mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			id, ss := partsOf(in, m)
			exp.text = "urn:" + id + ":" + ss
			got.text = (&urn.URN{ID: id, SS: ss}).String()
			if m == model.M7643 {
				s := urn.SCIM{Type: want.Type, Name: want.Name, Other: want.Other}
				got.b, exp.b = s.String() == exp.text, true
			}
			return
		}
	}},
	{name: "normalizing", props: "U06 U16", mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			id, ss := partsOf(in, m)
			return histResult{v: normView((&urn.URN{ID: id, SS: ss}).Normalize())}, histResult{v: expectNorm(id, ss)}
		}
	}},
	{name: "comparing with the one before", props: "U07", pair: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
		var last *urn.URN
		var lid, lss string
		return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			id, ss := partsOf(in, m)
			u := &urn.URN{ID: id, SS: ss}
			got.a, exp.a = u.Equal(&urn.URN{ID: id, SS: ss}), true
			if last != nil {
				got.b, exp.b = u.Equal(last), key(id, ss) == key(lid, lss)
				if last.Equal(u) != got.b {
					got.text = "not symmetric"
				}
			}
			last, lid, lss = u, id, ss
			return
		}
	}},
}

// One value, edited over and over and used in one way only.
func init() {
	type use struct {
		name string
		do   func(u *urn.URN) histResult
		exp  func(id, ss string) histResult
	}
	str := func(id, ss string) string { return "urn:" + id + ":" + ss }
	asJSON := func(x interface{}) string {
		b, err := json.Marshal(x)
		if err != nil {
			return err.Error()
		}
		return string(b)
	}
	uses := []use{
		{"writing", func(u *urn.URN) histResult { return histResult{text: u.String()} }, func(id, ss string) histResult { return histResult{text: str(id, ss)} }},
		{"normalizing", func(u *urn.URN) histResult { return histResult{v: normView(u.Normalize())} }, func(id, ss string) histResult { return histResult{v: expectNorm(id, ss)} }},
		{"encoding", func(u *urn.URN) histResult { return histResult{text: asJSON(u)} }, func(id, ss string) histResult { return histResult{text: string(jsonString(str(id, ss)))} }},
	}
	for _, us := range uses {
		for _, parsed := range []bool{false, true} {
			us, parsed := us, parsed
			name := us.name + " one hand-built value, edited"
			if parsed {
				name = us.name + " one parsed value, edited"
			}
			props := map[string]string{"writing": "U16", "normalizing": "U16 U06", "encoding": "U16"}[us.name]
			histOps = append(histOps, histOp{name: name, props: props, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
				u := &urn.URN{}
				if parsed {
					if p, _ := parseM(m, []byte("urn:ietf:params:scim:api:n:%4B")); p != nil {
						u = p
					}
				}
				return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
					u.ID, u.SS = partsOf(in, m)
					return us.do(u), us.exp(u.ID, u.SS)
				}
			}})
		}
	}
	for _, how := range []string{"writing", "encoding"} {
		how := how
		histOps = append(histOps, histOp{name: how + " one SCIM value, edited", props: "U16 U23", scim: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			s := &urn.SCIM{}
			return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
				s.Type, s.Name, s.Other = want.Type, want.Name, want.Other
				if how == "writing" {
					return histResult{text: s.String()}, histResult{text: want.SCIMStr}
				}
				return histResult{text: asJSON(s)}, histResult{text: string(jsonString(want.SCIMStr))}
			}
		}})
	}
	for _, left := range []bool{true, false} {
		left := left
		name := "comparing a value being edited with another one"
		if !left {
			name = "comparing a value with another one being edited"
		}
		histOps = append(histOps, histOp{name: name, props: "U07 U16", pair: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			u, x := &urn.URN{ID: "a", SS: "b"}, &urn.URN{ID: "a", SS: "b"}
			i := 0
			return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
				u.ID, u.SS = partsOf(in, m)
				exp.a = key(u.ID, u.SS) == key(x.ID, x.SS)
				if left {
					got.a = u.Equal(x)
				} else {
					got.a = x.Equal(u)
				}
				if i++; i%2 == 1 {
					x.ID, x.SS = u.ID, u.SS
				}
				return
			}
		}})
	}
}

// manyKept is how many of what calls gave are kept to look at again.
const manyKept = 66000

// What calls gave, looked at again after later ones.
func init() {
	type look = func() histResult
	urnLook := func(u *urn.URN) look {
		if u == nil {
			return nil
		}
		return func() histResult { return histResult{v: view(u)} }
	}
	kept := func(name, props string, all, takesBytes bool, mk func(m model.Mode) func(in []byte, o model.Outcome, want View) look) {
		histOps = append(histOps, histOp{name: name + ", looked at later", props: props, all: all, bytes: takesBytes, pair: true, mk: func(m model.Mode) func(in []byte, o model.Outcome, want View) (got, exp histResult) {
			give := mk(m)
			type item struct {
				look look
				was  histResult
				in   string
			}
			var ring [256]item
			var many []item // many more of them, if they are short
			n, short := 0, 0
			check := func(it *item) (got, exp histResult) {
				if it.look != nil {
					if now := it.look(); now != it.was {
						return histResult{text: fmt.Sprintf("what %s gave is now %s", quote([]byte(it.in)), now)}, histResult{text: it.was.String()}
					}
				}
				return
			}
			return func(in []byte, o model.Outcome, want View) (got, exp histResult) {
				l := give(in, o, want)
				for _, back := range []int{1, 2, 16, len(ring)} {
					if got, exp = check(&ring[(n+len(ring)-back)%len(ring)]); got != exp {
						return
					}
				}
				for _, back := range []int{1100, 4200, 17000, manyKept} {
					if short >= back && len(in) < 100 {
						if got, exp = check(&many[(short-back)%manyKept]); got != exp {
							return
						}
					}
				}
				ring[n%len(ring)] = item{}
				if l != nil {
					it := item{l, l().clone(), string(in)}
					ring[n%len(ring)] = it
					if len(in) < 100 {
						if len(many) < manyKept {
							many = append(many, it)
						} else {
							many[short%manyKept] = it
						}
						short++
					}
				}
				n++
				return
			}
		}})
	}
	kept("URNs of a reused parser", "U13 U12 U04", true, true, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		mc := urn.NewMachine(urn.WithParsingMode(realMode(m)))
		return func(in []byte, o model.Outcome, want View) look {
			u, _ := mc.Parse(in)
			return urnLook(u)
		}
	})
	kept("URNs of new parsers", "U13 U12 U04 U05", true, true, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		return func(in []byte, o model.Outcome, want View) look {
			u, _ := parseP(m, in)
			return urnLook(u)
		}
	})
	kept("errors", "U11 U12 U13", true, true, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		mc := urn.NewMachine(urn.WithParsingMode(realMode(m)))
		return func(in []byte, o model.Outcome, want View) look {
			_, err := mc.Parse(in)
			if err == nil {
				return nil
			}
			return func() histResult { return histResult{text: err.Error()} }
		}
	})
	kept("decoded values", "U08", false, true, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		var doc []byte
		return func(in []byte, o model.Outcome, want View) look {
			doc = docOf(doc, in)
			switch m {
			case model.M2141:
				u := new(urn.URN)
				u.UnmarshalJSON(doc)
				return urnLook(u)
			case model.M8141:
				var x urn.URN8141
				x.UnmarshalJSON(doc)
				return urnLook(x.URN)
			}
			s := new(urn.SCIM)
			s.UnmarshalJSON(doc)
			return func() histResult {
				return histResult{v: View{Type: s.Type, Name: s.Name, Other: s.Other, SCIMStr: s.String()}}
			}
		}
	})
	kept("documents", "U08 U16", false, false, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		return func(in []byte, o model.Outcome, want View) look {
			id, ss := partsOf(in, m)
			x := urn.URN{ID: id, SS: ss}
			a, _ := x.MarshalJSON()
			b, _ := urn.URN8141{URN: &x}.MarshalJSON()
			c, _ := urn.SCIM{Type: want.Type, Name: want.Name, Other: want.Other}.MarshalJSON()
			return func() histResult { return histResult{text: string(a) + string(b) + string(c)} }
		}
	})
	kept("strings", "U16 U23", false, false, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		return func(in []byte, o model.Outcome, want View) look {
			id, ss := partsOf(in, m)
			a := (&urn.URN{ID: id, SS: ss}).String()
			s := urn.SCIM{Type: want.Type, Name: want.Name, Other: want.Other}
			b := s.String()
			return func() histResult { return histResult{text: a, v: View{SCIMStr: b}} }
		}
	})
	kept("normal forms", "U06 U16", false, false, func(m model.Mode) func(in []byte, o model.Outcome, want View) look {
		return func(in []byte, o model.Outcome, want View) look {
			id, ss := partsOf(in, m)
			nu := (&urn.URN{ID: id, SS: ss}).Normalize()
			return func() histResult { return histResult{v: normView(nu)} }
		}
	})
}

// clone shares no memory with what it was made of.
func (r histResult) clone() histResult {
	r.text = strings.Clone(r.text)
	r.v = r.v.clone()
	return r
}

// docOf writes the JSON string of an input, in the same array as the one before if it fits.
func docOf(doc, in []byte) []byte {
	for _, c := range in {
		if c < ' ' || c >= 0x7f || c == '"' || c == '\\' {
			return append(doc[:0], jsonString(string(in))...)
		}
	}
	return append(append(append(doc[:0], '"'), in...), '"')
}

// utf8Clean: JSON strings cannot hold other bytes.
func asJSONOK(in []byte) bool { return string(bytes.ToValidUTF8(in, []byte("?"))) == string(in) }

type histCase struct {
	op   int
	mode model.Mode
	kind string // "near", "long", "distinct", "hash"
	n    int
	base string
}

var histLens = []int{60, 129, 260, 520, 1030, 2050, 4100, 9000, 66000}

func histBases(op histOp, m model.Mode) []string {
	var bs []string
	t := model.Build(m)
	for _, s := range append([]string{"urn:ietf:params:scim:param:NameX", "urn:Abcde:fghij", "urn:ABcd:x%4Bz?+rs?=uv#xyz", "urn:ietf:params:scim:schemas:core:2.0:User", "urn:ABcdefghijklmnopqrstuvwXYZ-0123:x"}, reuseInputs...) {
		if len(s) <= 80 && (op.all || t.Run([]byte(s)).Cat == model.OK) {
			bs = append(bs, s)
		}
	}
	return bs
}

func longBases(m model.Mode, n int) []string {
	s := strings.Repeat("yz%4C", n/5)[:n-n%5]
	switch m {
	case model.M7643:
		return []string{"URN:ietf:params:scim:api:Nm:x%4B" + s, "urn:ietf:params:scim:schemas:" + strings.Repeat("nameX", n/5)}
	case model.M8141:
		return []string{"URN:Ab:x%4B" + s + "?+r%4B?=q#f", "urn:ab:x?+" + s + "?=" + s[n/10*5:] + "#" + s[n/20*5:]}
	}
	return []string{"URN:Ab:x%4B" + s}
}

func histCases(prop string, thorough bool) []histCase {
	var cs []histCase
	for oi, op := range histOps {
		if !strings.Contains(op.props, prop) {
			continue
		}
		for _, m := range allModes {
			if op.scim && m != model.M7643 {
				continue
			}
			if only, ok := map[string]model.Mode{"U01": model.M2141, "U02": model.M8141, "U03": model.M7643, "U05": model.M7643}[prop]; ok && m != only {
				continue
			}
			for _, b := range histBases(op, m) {
				cs = append(cs, histCase{op: oi, mode: m, kind: "near", base: b})
			}
			for _, n := range histLens {
				for _, b := range longBases(m, n) {
					cs = append(cs, histCase{op: oi, mode: m, kind: "long", base: b})
				}
			}
			n := 70000
			if thorough {
				n = 300000
			}
			cs = append(cs, histCase{op: oi, mode: m, kind: "distinct", n: n})
			cs = append(cs, histCase{op: oi, mode: m, kind: "hash"})
		}
	}
	// the longest ones first
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].weight() > cs[j].weight() })
	return cs
}

func (c histCase) weight() int {
	switch {
	case c.kind == "distinct":
		return 3
	case c.kind == "long" && len(c.base) > 5000:
		return 2
	case c.kind == "hash":
		return 1
	}
	return 0
}

// runHistories explores the histories of a property.
func (e *Env) runHistories() {
	msgsOnce.Do(learnMessages)
	if msgsProblem != "" && e.Prop == "U13" {
		return // another property; the other checks of this one go on
	}
	cs := histCases(e.Prop, e.Thorough)
	if len(cs) == 0 {
		return
	}
	if bad := checkCollisions(); bad != "" {
		panic("the table of collisions is wrong: " + bad)
	}
	var calls int64
	kinds := map[string]int64{}
	for _, c := range cs {
		kinds[histOps[c.op].name+": "+c.kind]++
	}
	e.parallel(len(cs), func(i int) {
		if msg := e.histRun(cs[i], &calls); msg != "" {
			e.report(5000+i, &Viol{Check: "history", Ops: []int{i}, Message: msg, Space: "histories"})
		}
	})
	kinds["calls"] = atomic.LoadInt64(&calls)
	kinds["pairs of inputs with the same hash"] = int64(len(collisions) * len(collisions[0]))
	e.mu.Lock()
	e.stats.Spaces["histories"] = kinds
	e.stats.Traces += calls
	e.stats.Evaluations += calls
	e.mu.Unlock()
}

func replayHistory(prop string, v *Viol) string {
	e := newEnv(prop, "quick", 1, 1)
	msgsOnce.Do(learnMessages)
	cs := histCases(prop, os.Getenv("VERIF_TIER") == "thorough")
	if v.Ops[0] >= len(cs) {
		return "the case is not there in this tier"
	}
	var n int64
	return e.histRun(cs[v.Ops[0]], &n)
}

// histRun runs one case: "" or what differs.
func (e *Env) histRun(c histCase, calls *int64) (msg string) {
	op := histOps[c.op]
	var now []byte
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%s, in %s mode: panic: %v at %s", op.name, c.mode, r, quote(now))
		}
	}()
	t := e.tabs[c.mode]
	call := op.mk(c.mode)
	var n int64
	defer func() { atomic.AddInt64(calls, n) }()
	one := func(in []byte, after string) string {
		o := t.Run(in)
		if !op.all && o.Cat != model.OK {
			return ""
		}
		if strings.HasPrefix(op.name, "decoding") && !asJSONOK(in) {
			return ""
		}
		now = in
		var want View
		if o.Cat == model.OK {
			want = expectView(c.mode, string(in))
		}
		n++
		got, exp := call(in, o, want)
		if got != exp && (e.Prop != "U08" || exp.a || !op.all) && (e.Prop != "U09" || !exp.a) {
			same := func(alone string) bool {
				return alone == got.String() || op.keeps && !got.a && got.v == exp.v && strings.HasSuffix(alone, "] false false")
			}
			if atomic.LoadInt64(&e.noHistory) >= 100 {
				return "" // another property is broken all over
			}
			if alone, ok := aloneResult(c.op, c.mode, in); ok && !op.pair && same(alone) {
				atomic.AddInt64(&e.noHistory, 1)
				return "" // it is so without any history: another property
			}
			return fmt.Sprintf("%s, in %s mode, %s: %s gives %s; want %s", op.name, c.mode, after, quote(in), got, exp)
		}
		return ""
	}
	switch c.kind {
	case "near", "long":
		buf := make([]byte, len(c.base)+1)
		base := []byte(c.base)
		try := func(v []byte) string {
			if e.stopped() {
				return ""
			}
			copy(buf, base)
			if d := one(buf[:len(base)], "again in the same array"); d != "" {
				return d
			}
			k := copy(buf, v)
			return one(buf[:k], "after "+quote(base)+" in the same array")
		}
		if c.kind == "near" {
			edits1(base, nil, func(v []byte) {
				if msg == "" && len(v) <= len(buf) {
					msg = try(v)
				}
			})
			return msg
		}
		w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
		v := make([]byte, len(base))
		for _, p := range w.positions(len(base)) {
			if len(base) > 60000 && p%7 != 0 && p > 40 && p < len(base)-12 {
				continue
			}
			for _, x := range []byte{base[p] ^ 1, base[p] ^ 0x20, 'w'} {
				copy(v, base)
				v[p] = x
				if msg = try(v); msg != "" {
					return msg
				}
			}
		}
		for _, k := range []int{1, 2, 7, 30} {
			if msg = try(base[:len(base)-k]); msg != "" {
				return msg
			}
		}
	case "distinct":
		var ds []int
		for d := 1; d < c.n; d *= 2 {
			ds = append(ds, d-1, d, d+1)
		}
		for _, v := range harvest(false).Ints {
			if v > 20 && v < c.n {
				ds = append(ds, v-1, v, v+1)
			}
		}
		if len(ds) > 70 {
			ds = ds[:70]
		}
		var in []byte
		for i := 0; i < c.n; i++ {
			if i&1023 == 0 && e.stopped() {
				return ""
			}
			in = distinct(in, c.mode, i, op.all)
			if d := one(in, fmt.Sprintf("after %d others", i)); d != "" {
				return d
			}
			for k, d := range ds {
				if d <= i && (i < 3000 || (i+k)%8 == 0) {
					in = distinct(in, c.mode, i-d, op.all)
					if d := one(in, fmt.Sprintf("again after %d others", d)); d != "" {
						return d
					}
				}
			}
		}
		for i := 0; i < c.n; i++ {
			in = distinct(in, c.mode, i, op.all)
			if d := one(in, fmt.Sprintf("again after %d others", c.n)); d != "" {
				return d
			}
		}
	case "hash":
		for h := range collisions {
			for _, p := range collisions[h] {
				a, b := inMode(c.mode, p[0]), inMode(c.mode, p[1])
				for _, x := range [][]byte{a, b, a, b, b, a} {
					if d := one(x, fmt.Sprintf("after one with the same %s", hashFuncs[h].name)); d != "" {
						return d
					}
				}
			}
		}
	}
	return ""
}

// distinct is the i-th of a sequence of distinct inputs, accepted or rejected.
func distinct(buf []byte, m model.Mode, i int, rejected bool) []byte {
	buf = buf[:0]
	if m == model.M7643 {
		buf = append(buf, "urn:ietf:params:scim:param:N"...)
		buf = strconv.AppendInt(buf, int64(i%977), 36)
		buf = append(buf, ':')
	} else {
		buf = append(buf, "urn:N"...)
		if i%5 == 2 {
			buf = append(buf, "amespace-Of-20-OR-MORE"...)
		}
		buf = strconv.AppendInt(buf, int64(i%977), 36)
		buf = append(buf, ":%4Bx"...)
	}
	buf = strconv.AppendInt(buf, int64(i), 10)
	switch i % 7 {
	case 3:
		if m == model.M8141 {
			buf = append(buf, "?+r?=q#f"...)
			buf = strconv.AppendInt(buf, int64(i), 10)
		}
	case 5:
		if rejected {
			buf = append(buf, '%')
		}
	}
	return buf
}

// inMode puts the text of a specific string into an input.
func inMode(m model.Mode, ss string) []byte {
	if m == model.M7643 {
		return []byte("urn:ietf:params:scim:api:n:" + ss)
	}
	return []byte("urn:ab:" + ss)
}

type hashFunc struct {
	name string
	f    func(s string) uint32
}

var hashFuncs = []hashFunc{
	{"CRC-32", func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }},
	{"CRC-32C", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }},
	{"Adler-32", func(s string) uint32 { return adler32.Checksum([]byte(s)) }},
	{"FNV-1 (32 bits)", func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }},
	{"FNV-1a (32 bits)", func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() }},
	{"low half of FNV-1 (64 bits)", func(s string) uint32 { h := fnv.New64(); h.Write([]byte(s)); return uint32(h.Sum64()) }},
	{"high half of FNV-1 (64 bits)", func(s string) uint32 { h := fnv.New64(); h.Write([]byte(s)); return uint32(h.Sum64() >> 32) }},
	{"low half of FNV-1a (64 bits)", func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64()) }},
	{"high half of FNV-1a (64 bits)", func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64() >> 32) }},
	{"folded FNV-1a (64 bits)", func(s string) uint32 {
		h := fnv.New64a()
		h.Write([]byte(s))
		x := h.Sum64()
		return uint32(x>>32) ^ uint32(x)
	}},
	{"low half of CRC-64", func(s string) uint32 { return uint32(crc64.Checksum([]byte(s), iso64)) }},
	{"31-hash", func(s string) uint32 { return poly(s, 31, 0) }},
	{"131-hash", func(s string) uint32 { return poly(s, 131, 0) }},
	{"33-hash", func(s string) uint32 { return poly(s, 33, 5381) }},
	{"33-hash (xor)", func(s string) uint32 {
		h := uint32(5381)
		for i := 0; i < len(s); i++ {
			h = h*33 ^ uint32(s[i])
		}
		return h
	}},
	{"sum of the bytes", func(s string) uint32 { return poly(s, 1, 0) }},
	{"exclusive or of the bytes", func(s string) (h uint32) {
		for i := 0; i < len(s); i++ {
			h ^= uint32(s[i])
		}
		return
	}},
	{"sum of the bytes times their positions", func(s string) (h uint32) {
		for i := 0; i < len(s); i++ {
			h += uint32(s[i]) * uint32(i+1)
		}
		return
	}},
	{"rotating exclusive or", func(s string) (h uint32) {
		for i := 0; i < len(s); i++ {
			h = (h<<5 | h>>27) ^ uint32(s[i])
		}
		return
	}},
	{"sdbm hash", func(s string) uint32 { return poly(s, 65599, 0) }},
}

var (
	castagnoli = crc32.MakeTable(crc32.Castagnoli)
	iso64      = crc64.MakeTable(crc64.ISO)
)

func poly(s string, k, h uint32) uint32 {
	for i := 0; i < len(s); i++ {
		h = h*k + uint32(s[i])
	}
	return h
}

// hashed are the texts something might hash, of an input with this specific string.
var hashed = []func(ss string) string{
	func(ss string) string { return ss },
	func(ss string) string { return "urn:ab:" + ss },
	func(ss string) string { return "ab:" + ss },
	func(ss string) string { return "ab" + ss },
	func(ss string) string { return `"urn:ab:` + ss + `"` },
	func(ss string) string { return "urn:ietf:params:scim:api:n:" + ss },
	func(ss string) string { return `"urn:ietf:params:scim:api:n:` + ss + `"` },
	func(ss string) string { return "api:n:" + ss },
}

// checkCollisions: "" or the pair that does not collide.
func checkCollisions() string {
	for h, pairs := range collisions {
		for i, p := range pairs {
			text := hashed[i/(len(pairs)/len(hashed))]
			if p[0] == p[1] || hashFuncs[h].f(text(p[0])) != hashFuncs[h].f(text(p[1])) {
				return fmt.Sprintf("%s: %v", hashFuncs[h].name, p)
			}
		}
	}
	return ""
}

// aloneResult is what the input gives in a process that does nothing else.
func aloneResult(op int, m model.Mode, in []byte) (string, bool) {
	b, _ := json.Marshal(aloneCase{op, int(m), in})
	cmd := exec.Command(os.Args[0], "alone")
	cmd.Stdin = bytes.NewReader(b)
	out, err := cmd.Output()
	if err != nil {
		return "", false
	}
	return string(out), true
}

type aloneCase struct {
	Op, Mode int
	In       []byte
}

// alone is the process aloneResult starts.
func alone() int {
	var c aloneCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		return 2
	}
	m := model.Mode(c.Mode)
	t := model.Build(m)
	call := histOps[c.Op].mk(m)
	o := t.Run(c.In)
	var want View
	if o.Cat == model.OK {
		want = expectView(m, string(c.In))
	}
	got, _ := call(c.In, o, want)
	fmt.Print(got)
	return 0
}

var _ = scimschema.API
