package main

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strings"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

func init() {
	props["U13"] = &Prop{Run: runReuse, Replay: func(v *Viol) string {
		switch v.Check {
		case "history":
			return replayHistory("U13", v)
		case "long":
			return longRun(nil, v.Ops)
		case "input":
			e := newEnv("U13", "quick", 1, 1)
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkAround)
		}
		return reuseSeq(reuseOps(), v.Ops, nil)
	}}
	props["U15"] = &Prop{Run: runModes, Replay: func(v *Viol) string { return modeCase(v.Ops) }}
	props["U16"] = &Prop{Run: runObserve, Replay: func(v *Viol) string {
		if v.Check == "history" {
			return replayHistory("U16", v)
		}
		if v.Check == "input" {
			e := newEnv("U16", "quick", 1, 1)
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkObserve)
		}
		if v.Check == "long" {
			return longHistory(v.Ops[0], v.Ops[1], v.Ops[2])
		}
		return observeSeq(v.Ops[0], v.Ops[1:])
	}}
	props["U17"] = &Prop{Run: runTypes, Replay: func(v *Viol) string {
		if v.Check == "value" {
			return typeValue(v.Ops[0])
		}
		return typeName(string(v.Input))
	}}
}

// ------------------------------------------------------------------ U13

// result is what a parse shows.
type result struct {
	v   View
	err string
}

func see(u *urn.URN, err error) result { return result{view(u), errText(err)} }

// reuseInputs has an input for each way of being accepted and for each way (and place) of being rejected.
var reuseInputs = []string{
	"urn:ab:c", "URN:Ab:C%4Bd", "urn:ab:%AA%Bb%cC", "UrN:a:b", "urn:urnx:y",
	"urn:ietf:params:scim:api:n", "uRN:ietf:params:scim:schemas:Core:2.0%3A:User", "urn:ietf:params:scim:param:p%4",
	"urn:ab:c?+r", "urn:ab:c?=q", "urn:ab:c#f", "urn:ab:c?+R%4B?=Q%4C#F%4D", "URN:urn-7:x?+r?x?=q?y#", "urn:ab:c?+r?=/z",
	"", "u", "urn", "urn:", "urn:ab", "urn:ab:", "urn:urn:x", "urn:ab:c%", "urn:ab:c%4", "urn:ab:c%4/", "urn:ab:c%4B\x00", "x", "urn:-a:b", "urn:ab:c d",
	"urn:ietf:params:scim:", "urn:ietf:params:scim:xx", "urn:ietf:params:scim:api:", "urn:ietf:params:scim:api:n:", "urn:ietf:params:scim:api:n:/",
	"urn:ab:c?", "urn:ab:c?+", "urn:ab:c?=", "urn:ab:c?+a?+b", "urn:ab:c?=a?=b", "urn:ab:c?+a?=b?=c", "urn:ab:c##", "urn:urn-a:x", "urn:ab:?", "urn:ab:c#%",
	"urn:" + strings.Repeat("N", 32) + ":" + strings.Repeat("%AB", 40), "urn:ab:" + strings.Repeat("z", 300) + "/",
}

const (
	opMode = iota
	opParse
	opOther   // another machine
	opPackage // the package-level function
)

type reuseOp struct {
	kind int
	mode urn.ParsingMode
	in   string
}

func (o reuseOp) String() string {
	switch o.kind {
	case opMode:
		return fmt.Sprintf("WithParsingMode(%d)", o.mode)
	case opParse:
		return "Parse(" + quote([]byte(o.in)) + ")"
	case opOther:
		return fmt.Sprintf("another parser in mode %d: Parse(%s)", o.mode, quote([]byte(o.in)))
	}
	return fmt.Sprintf("package-level Parse(%s) in mode %d", quote([]byte(o.in)), o.mode)
}

func reuseOps() []reuseOp {
	var ops []reuseOp
	for _, s := range reuseInputs {
		ops = append(ops, reuseOp{kind: opParse, in: s})
	}
	for _, m := range []urn.ParsingMode{urn.RFC2141Only, urn.RFC7643Only, urn.RFC8141Only, urn.Default, 9} {
		ops = append(ops, reuseOp{kind: opMode, mode: m})
	}
	ops = append(ops, reuseOp{opOther, urn.RFC2141Only, "urn:zz:%FF"}, reuseOp{opOther, urn.RFC8141Only, "URN:zz:z?+zz?=zz#zz"}, reuseOp{opOther, urn.RFC7643Only, "urn:ietf:params:scim:schemas:zz:zz"}, reuseOp{opOther, urn.RFC8141Only, "urn:zz:z?"},
		reuseOp{opPackage, urn.RFC2141Only, "URN:yy:%EE"}, reuseOp{opPackage, urn.RFC8141Only, "urn:yy:y?+yy"}, reuseOp{opPackage, urn.RFC7643Only, "urn:y"})
	return ops
}

// smallOps is a small alphabet, for longer sequences.
func smallOps() []int {
	var idx []int
	want := map[string]bool{"URN:Ab:C%4Bd": true, "uRN:ietf:params:scim:schemas:Core:2.0%3A:User": true, "urn:ab:c?+R%4B?=Q%4C#F%4D": true, "urn:ab:c": true, "urn:ab:c?+a?+b": true, "urn:ab:c%4": true, "urn:urn:x": true, "": true, "urn:ab:c##": true, "urn:ietf:params:scim:api:n:": true}
	for i, o := range reuseOps() {
		switch {
		case o.kind == opParse && want[o.in], o.kind == opMode && o.mode != 9, o.kind == opOther && o.mode == urn.RFC8141Only, o.kind == opPackage && o.mode == urn.RFC2141Only:
			idx = append(idx, i)
		}
	}
	return idx
}

// fresh results, computed once per mode and input, each by a new parser
type freshTable map[[2]string]result

func effective(m urn.ParsingMode) urn.ParsingMode {
	switch m {
	case urn.RFC2141Only, urn.RFC7643Only, urn.RFC8141Only:
		return m
	}
	return urn.RFC2141Only
}

var colSuffix = regexp.MustCompile(` *\[col -?\d+\].*$`)

func mkFresh(ops []reuseOp) freshTable {
	t := freshTable{}
	for _, o := range ops {
		if o.kind == opMode {
			continue
		}
		for m := urn.RFC2141Only; m <= urn.RFC8141Only; m++ {
			u, err := urn.NewMachine(urn.WithParsingMode(m)).Parse([]byte(o.in))
			t[[2]string{fmt.Sprint(int(m)), o.in}] = see(u, err)
		}
	}
	return t
}

var modeKey = [4]string{"0", "1", "2", "3"}

// reuseSeq runs one sequence on one parser: "" or what differs from fresh parsers.
func reuseSeq(ops []reuseOp, seq []int, fresh freshTable) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v in %s", r, describe(ops, seq))
		}
	}()
	if fresh == nil {
		fresh = mkFresh(ops)
	}
	m := urn.NewMachine()
	mode := urn.RFC2141Only
	type kept struct {
		u   *urn.URN
		err error
		r   result
		at  int
	}
	var keep [16]kept
	nk := 0
	for i, oi := range seq {
		o := ops[oi]
		var u *urn.URN
		var err error
		switch o.kind {
		case opMode:
			m.WithParsingMode(o.mode)
			mode = effective(o.mode)
			continue
		case opParse:
			u, err = m.Parse([]byte(o.in))
			got := see(u, err)
			want := fresh[[2]string{modeKey[mode], o.in}]
			if got != want {
				return fmt.Sprintf("step %d of %s: got %s, %s; a fresh parser gives %s, %s", i+1, describe(ops, seq), got.v, got.err, want.v, want.err)
			}
			if e := m.Error(); !sameErr(e, err) {
				return fmt.Sprintf("step %d of %s: Error() is %s after a parse returning %s", i+1, describe(ops, seq), errText(e), errText(err))
			}
		case opOther:
			u, err = urn.NewMachine(urn.WithParsingMode(o.mode)).Parse([]byte(o.in))
			if got, want := see(u, err), fresh[[2]string{modeKey[o.mode], o.in}]; got != want {
				return fmt.Sprintf("step %d of %s: got %s, %s; want %s, %s", i+1, describe(ops, seq), got.v, got.err, want.v, want.err)
			}
		case opPackage:
			u, _ = urn.Parse([]byte(o.in), urn.WithParsingMode(o.mode))
			if got, want := view(u), fresh[[2]string{modeKey[o.mode], o.in}].v; got != want {
				return fmt.Sprintf("step %d of %s: got %s; want %s", i+1, describe(ops, seq), got, want)
			}
		}
		if nk < len(keep) {
			keep[nk] = kept{u, err, see(u, err), i}
			nk++
		}
	}
	for _, k := range keep[:nk] {
		if now := see(k.u, k.err); now != k.r {
			return fmt.Sprintf("the result of step %d of %s changed later: %s, %s; it was %s, %s", k.at+1, describe(ops, seq), now.v, now.err, k.r.v, k.r.err)
		}
		if k.u != nil {
			if n := normView(k.u.Normalize()); n != expectNorm(k.r.v.ID, k.r.v.SS) {
				return fmt.Sprintf("the normal form of the result of step %d of %s is %s in the end", k.at+1, describe(ops, seq), n)
			}
		}
	}
	return ""
}

// around are the inputs parsed before and after every input of the spaces: accepted with everything set, rejected late, accepted plainly.
var around = [4][]string{
	model.M2141: {"URN:Zz:%4Bz%4C", "urn:zz:%4Bz%4C%4", "urn:ietf:params:scim:api:nn"},
	model.M7643: {"URN:ietf:params:scim:schemas:Zz:%4Bz%4C", "urn:ietf:params:scim:param:zz:%4Bz%4C%", "urn:ietf:params:scim:api:nn"},
	model.M8141: {"URN:Zz:%4Bz%4C?+zr%4B?=zq%4B#zf", "urn:zz:%4Bz?+zr?=zq?=zz", "urn:ietf:params:scim:api:nn"},
}

// checkAround: what an input gives does not depend on what the parser parsed before it, nor what is parsed before and after on the input.
func checkAround(w *Worker, m model.Mode, in []byte) string {
	type wants struct{ r [4][]result }
	ws, _ := w.slots["around"].(*wants)
	if ws == nil {
		ws = &wants{}
		for mm := model.M2141; mm <= model.M8141; mm++ {
			for _, a := range around[mm] {
				u, err := parseM(mm, []byte(a))
				ws.r[mm] = append(ws.r[mm], see(u, err))
			}
		}
		w.slots["around"] = ws
	}
	fu, ferr := parseM(m, in)
	want := see(fu, ferr)
	other := m%3 + 1
	for i, a := range around[m] {
		mc := urn.NewMachine(urn.WithParsingMode(realMode(m)))
		ua, ea := mc.Parse([]byte(a))
		ux, ex := mc.Parse(in)
		if got := see(ux, ex); got != want {
			return fmt.Sprintf("%s after %q: %s, %s; a fresh parser gives %s, %s", m, a, got.v, got.err, want.v, want.err)
		}
		if !sameErr(mc.Error(), ex) {
			return fmt.Sprintf("%s after %q: Error() is %s after a parse returning %s", m, a, errText(mc.Error()), errText(ex))
		}
		if i == 1 {
			mc.WithParsingMode(realMode(other))
			b := around[other][0]
			ub, eb := mc.Parse([]byte(b))
			if got := see(ub, eb); got != ws.r[other][0] {
				return fmt.Sprintf("%q in %s mode after this one: %s, %s; a fresh parser gives %s, %s", b, other, got.v, got.err, ws.r[other][0].v, ws.r[other][0].err)
			}
			mc.WithParsingMode(realMode(m))
		}
		j := (i + 1) % len(around[m])
		ub, eb := mc.Parse([]byte(around[m][j]))
		w.traces += 3
		if got := see(ub, eb); got != ws.r[m][j] {
			return fmt.Sprintf("%s: %q after this one: %s, %s; a fresh parser gives %s, %s", m, around[m][j], got.v, got.err, ws.r[m][j].v, ws.r[m][j].err)
		}
		if got := see(ux, ex); got != want {
			return fmt.Sprintf("%s: the result changed when %q was parsed: %s, %s; it was %s, %s", m, around[m][j], got.v, got.err, want.v, want.err)
		}
		if got := see(ua, ea); got != ws.r[m][i] {
			return fmt.Sprintf("%s: the result of %q changed when this one was parsed: %s, %s; it was %s, %s", m, around[m][i], got.v, got.err, ws.r[m][i].v, ws.r[m][i].err)
		}
	}
	return ""
}

func describe(ops []reuseOp, seq []int) string {
	var s []string
	for _, i := range seq {
		s = append(s, ops[i].String())
	}
	return "[" + strings.Join(s, "; ") + "]"
}

func runReuse(e *Env) {
	e.runHistories()
	ops := reuseOps()
	fresh := mkFresh(ops)
	// The fresh results themselves agree with the model
	outcomes := map[string]bool{}
	for _, r := range fresh {
		outcomes[fmt.Sprint(r)] = true
	}
	e.stats.Extra["distinct_results_of_fresh_parsers"] = len(outcomes)
	for k, r := range fresh {
		if !e.first() {
			break
		}
		kind := "accepted"
		if r.err != "" && r.err != "<nil>" {
			kind = "rejected: " + colSuffix.ReplaceAllString(r.err, "")
		}
		e.outcome("fresh parser, mode "+k[0]+", "+head(kind, 60), 1)
	}
	var n, steps int64
	explore := func(space string, base int, alpha []int, depth int) {
		var cnt int64
		e.parallel(len(alpha), func(i int) {
			seq := make([]int, 0, depth)
			var rec func()
			rec = func() {
				if e.stopped() {
					return
				}
				if msg := reuseSeq(ops, seq, fresh); msg != "" {
					e.report(base+len(seq), &Viol{Check: "sequence", Ops: append([]int(nil), seq...), Message: msg, Space: space})
					return
				}
				atomic.AddInt64(&cnt, 1)
				atomic.AddInt64(&steps, int64(len(seq)))
				if len(seq) == depth {
					return
				}
				for _, o := range alpha {
					seq = append(seq, o)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			seq = append(seq, alpha[i])
			rec()
		})
		e.stats.Spaces[space] = map[string]int64{"operations": int64(len(alpha)), "depth": int64(depth), "sequences": cnt}
		n += cnt
	}
	all := make([]int, len(ops))
	for i := range all {
		all[i] = i
	}
	d1, d2 := 4, 5
	if e.Thorough {
		d1, d2 = 4, 6
	}
	explore("all sequences", 0, all, d1)
	explore("longer sequences of a small alphabet", 100, smallOps(), d2)
	// Long histories
	cases := longCases(e.Thorough)
	var long int64
	e.parallel(len(cases), func(i int) {
		if msg := longRun(&long, cases[i]); msg != "" {
			e.report(1000+i, &Viol{Check: "long", Ops: cases[i], Message: msg})
		}
	})
	e.stats.Spaces["long histories"] = map[string]int64{"histories": int64(len(cases)), "parses": long}
	if e.first() {
		n += int64(len(cases))
	}
	e.stats.Evaluations += n
	e.stats.Traces += n
	e.stats.States = int64(3 * (len(reuseInputs) + 1)) // (mode, last input) pairs: the abstract states of a parser
	e.stats.Transitions = steps + long
	// Every input of the spaces between others
	var ts []Task
	if e.Thorough {
		ts = e.light(allModes)
	} else {
		ts = append(e.jsonTasks(), e.spacePump(allModes, e.extraLens())...)
	}
	e.exploreInputs(ts, allModes, checkAround)
	e.finish(allModes)
	for i := 0; i < 8; i++ {
		e.sample("seq", describe(ops, []int{(i * 7) % len(ops), (i*11 + 3) % len(ops), (i*5 + 1) % len(ops)}))
	}
	e.sample("long", fmt.Sprintf("long histories such as %v (family, parameters)", cases[len(cases)/2]))
}

// longCases: {0, mode, input, n}: the same parse n times. {1, mode, family, a, b}: lengths a then b then a. {2, mode, n}: all inputs in turn, n times.
func longCases(thorough bool) [][]int {
	var cs [][]int
	n := 70000
	for m := 1; m <= 3; m++ {
		for i, s := range reuseInputs {
			if len(s) > 60 {
				continue
			}
			cs = append(cs, []int{0, m, i, n})
		}
		cs = append(cs, []int{2, m, 400})
		top := 70
		if thorough {
			top = 200
		}
		for f := 0; f < 4; f++ {
			for a := 0; a < top; a++ {
				cs = append(cs, []int{1, m, f, a, top})
			}
		}
	}
	return cs
}

func family(f, m, n int, odd byte) []byte {
	base := "urn:ab:x"
	if m == 2 {
		base = "urn:ietf:params:scim:api:n:x"
	}
	switch f {
	case 0:
		return []byte(base + strings.Repeat(string([]byte{odd}), n))
	case 1:
		return []byte(base + strings.Repeat("%"+string([]byte{odd &^ 0x20, odd &^ 0x20}), n))
	case 2:
		return []byte(base + strings.Repeat("%"+string([]byte{odd, odd}), n) + "/\x00")
	}
	if m == 3 {
		return []byte(base + "?+r" + strings.Repeat(string([]byte{odd}), n) + "?=q" + strings.Repeat("%"+string([]byte{odd, odd}), n/2) + "#f")
	}
	return []byte(base + strings.Repeat(string([]byte{odd, ':'}), n))
}

func longRun(count *int64, c []int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v in the long history %v", r, c)
		}
	}()
	mode := urn.ParsingMode(c[1])
	m := urn.NewMachine(urn.WithParsingMode(mode))
	freshOf := func(in []byte) result {
		u, err := urn.NewMachine(urn.WithParsingMode(mode)).Parse(in)
		return see(u, err)
	}
	var n int64
	defer func() {
		if count != nil {
			atomic.AddInt64(count, n)
		}
	}()
	switch c[0] {
	case 0:
		in := []byte(reuseInputs[c[2]])
		want := freshOf(in)
		first, ferr := m.Parse(in)
		for i := 0; i < c[3]; i++ {
			n++
			u, err := m.Parse(in)
			if i&63 != 0 && i > 600 {
				if (u == nil) != want.v.Nil {
					return fmt.Sprintf("parse number %d of %s in mode %d: %s, %s; a fresh parser gives %s, %s", i+2, quote(in), mode, view(u), errText(err), want.v, want.err)
				}
				continue
			}
			if got := see(u, err); got != want {
				return fmt.Sprintf("parse number %d of %s in mode %d: %s, %s; a fresh parser gives %s, %s", i+2, quote(in), mode, got.v, got.err, want.v, want.err)
			}
		}
		if got := see(first, ferr); got != want {
			return fmt.Sprintf("after %d parses of %s in mode %d the first result is %s, %s; it was %s, %s", c[3], quote(in), mode, got.v, got.err, want.v, want.err)
		}
	case 1:
		a, top := c[3], c[4]
		ia := family(c[2], c[1], a, 'b')
		wa := freshOf(ia)
		for b := 0; b < top; b++ {
			ib := family(c[2], c[1], b, 'd')
			wb := freshOf(ib)
			ua, ea := m.Parse(ia)
			ub, eb := m.Parse(ib)
			n += 2
			if got := see(ub, eb); got != wb {
				return fmt.Sprintf("mode %d: %s after %s: %s, %s; a fresh parser gives %s, %s", mode, quote(ib), quote(ia), got.v, got.err, wb.v, wb.err)
			}
			if got := see(ua, ea); got != wa {
				return fmt.Sprintf("mode %d: %s then %s: the first result is now %s, %s; a fresh parser gives %s, %s", mode, quote(ia), quote(ib), got.v, got.err, wa.v, wa.err)
			}
		}
	case 2:
		want := make([]result, len(reuseInputs))
		for i, s := range reuseInputs {
			want[i] = freshOf([]byte(s))
		}
		for k := 0; k < c[2]; k++ {
			for i := range reuseInputs {
				j := (i*(2*k+1) + k) % len(reuseInputs)
				n++
				u, err := m.Parse([]byte(reuseInputs[j]))
				if got := see(u, err); got != want[j] {
					return fmt.Sprintf("mode %d, after %d parses: %s gives %s, %s; a fresh parser gives %s, %s", mode, n, quote([]byte(reuseInputs[j])), got.v, got.err, want[j].v, want[j].err)
				}
			}
		}
	}
	return ""
}

// ------------------------------------------------------------------ U15

var modeValues = []urn.ParsingMode{urn.RFC2141Only, urn.RFC7643Only, urn.RFC8141Only, urn.Default, 4, -1, math.MaxInt32}

// probes tell the modes apart.
var probes = []string{"urn:a:b", "URN:ietf:params:scim:api:n", "urn:ab:c?+r", "urn:@", "urn:urn:x", ""}

// modeCase: ops = options then -1 then later modes: encoded as indexes in modeValues.
func modeCase(ops []int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v in %v", r, modeText(ops))
		}
	}()
	var opts []urn.Option
	later := []urn.ParsingMode{}
	afterNew := urn.RFC2141Only
	inLater := false
	for _, o := range ops {
		if o < 0 {
			inLater = true
			continue
		}
		if inLater {
			later = append(later, modeValues[o])
		} else {
			opts = append(opts, urn.WithParsingMode(modeValues[o]))
			afterNew = effective(modeValues[o])
		}
	}
	want := func(m urn.ParsingMode, in string) result { return probeTable[probeKey{m, in}] }
	witness := urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
	dflt := urn.NewMachine()
	m := urn.NewMachine(opts...)
	twin := urn.NewMachine(opts...) // the same option values again
	mode := afterNew
	check := func(who string, mc urn.Machine, mode urn.ParsingMode) string {
		for _, p := range probes {
			u, err := mc.Parse([]byte(p))
			if got, w := see(u, err), want(mode, p); got != w {
				return fmt.Sprintf("%s: %s, in mode %d, gives %s, %s for %q; want %s, %s", modeText(ops), who, mode, got.v, got.err, p, w.v, w.err)
			}
		}
		return ""
	}
	if d := check("the new parser", m, mode); d != "" {
		return d
	}
	for _, p := range probes {
		u, ok := urn.Parse([]byte(p), opts...)
		w := want(afterNew, p)
		if view(u) != w.v || ok != (w.err == "<nil>") {
			return fmt.Sprintf("%s: Parse(%q, options) gives %s, %v; want %s, %s", modeText(ops), p, view(u), ok, w.v, w.err)
		}
	}
	for i, x := range later {
		m.WithParsingMode(x)
		mode = effective(x)
		if i == len(later)-1 {
			if d := check("the parser after the last change", m, mode); d != "" {
				return d
			}
		}
	}
	if d := check("another parser with the same option values", twin, afterNew); d != "" {
		return d
	}
	if d := check("a parser in RFC 8141 mode created before", witness, urn.RFC8141Only); d != "" {
		return d
	}
	if d := check("a parser without options created before", dflt, urn.RFC2141Only); d != "" {
		return d
	}
	if d := check("a parser without options created after", urn.NewMachine(), urn.RFC2141Only); d != "" {
		return d
	}
	for _, p := range probes {
		u, ok := urn.Parse([]byte(p))
		w := want(urn.RFC2141Only, p)
		if view(u) != w.v || ok != (w.err == "<nil>") {
			return fmt.Sprintf("%s: then Parse(%q) gives %s, %v; want %s, %s", modeText(ops), p, view(u), ok, w.v, w.err)
		}
	}
	// The other parser keeps its mode when this one changes, the other way round, and once it has parsed
	twin.WithParsingMode(urn.RFC7643Only)
	if d := check("the parser after another one changed mode", m, mode); d != "" {
		return d
	}
	return check("the other one", twin, urn.RFC7643Only)
}

type probeKey struct {
	m  urn.ParsingMode
	in string
}

// probeTable is what the probes give in each mode, from the model and, for the messages, from fresh parsers.
var probeTable = map[probeKey]result{}

func fillProbes(e *Env) string {
	for m := model.M2141; m <= model.M8141; m++ {
		for _, p := range probes {
			u, err := parseM(m, []byte(p))
			r := see(u, err)
			o := e.tabs[m].Run([]byte(p))
			if (o.Cat == model.OK) != (u != nil) {
				return fmt.Sprintf("a parser in %s mode does not decide %q as %s mode does: %s, %s", m, p, m, r.v, r.err)
			}
			if u != nil && r.v != expectView(m, p) {
				return fmt.Sprintf("a parser in %s mode gives %s for %q, want %s", m, r.v, p, expectView(m, p))
			}
			probeTable[probeKey{realMode(m), p}] = r
		}
	}
	return ""
}

func modeText(ops []int) string {
	var s []string
	where := "option"
	for _, o := range ops {
		if o < 0 {
			where = "then WithParsingMode"
			continue
		}
		s = append(s, fmt.Sprintf("%s %d", where, modeValues[o]))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func runModes(e *Env) {
	if msg := fillProbes(e); msg != "" {
		e.report(0, &Viol{Check: "modes", Ops: []int{}, Message: msg})
		return
	}
	shapes := [][2]int{{4, 2}, {2, 4}, {3, 3}} // at most so many options, and so many changes
	if e.Thorough {
		shapes = [][2]int{{5, 2}, {2, 5}, {4, 3}, {3, 4}}
	}
	var cases [][]int
	var gen func(prefix []int, k int, out *[][]int)
	gen = func(prefix []int, k int, out *[][]int) {
		*out = append(*out, append([]int(nil), prefix...))
		if k == 0 {
			return
		}
		for i := range modeValues {
			gen(append(prefix, i), k-1, out)
		}
	}
	var os, ls [][]int
	gen(nil, 5, &os)
	ls = os
	for _, o := range os {
		for _, l := range ls {
			for _, sh := range shapes {
				if len(o) <= sh[0] && len(l) <= sh[1] {
					cases = append(cases, append(append(append([]int(nil), o...), -1), l...))
					break
				}
			}
		}
	}
	var n int64
	e.parallel(len(cases), func(i int) {
		var last urn.ParsingMode
		for _, c := range cases[i] {
			if c >= 0 {
				last = modeValues[c]
			}
		}
		e.outcome(fmt.Sprintf("asked for %d, parsed as %d", last, effective(last)), 1)
		if msg := modeCase(cases[i]); msg != "" {
			e.report(len(cases[i]), &Viol{Check: "modes", Ops: cases[i], Message: msg})
		}
		atomic.AddInt64(&n, 1)
	})
	// Every value near the known ones, and the powers of two, as an option and as a later change
	var vals []urn.ParsingMode
	for v := -300; v <= 300; v++ {
		vals = append(vals, urn.ParsingMode(v))
	}
	for k := 8; k < 63; k++ {
		for d := -3; d <= 3; d++ {
			vals = append(vals, urn.ParsingMode(1<<uint(k)+d), -urn.ParsingMode(1<<uint(k)+d))
		}
	}
	shared := 0
	for _, v := range vals {
		if !e.first() {
			break
		}
		shared += 2
		for _, how := range []string{"option", "change"} {
			var m urn.Machine
			if how == "option" {
				m = urn.NewMachine(urn.WithParsingMode(v))
			} else {
				m = urn.NewMachine(urn.WithParsingMode(urn.RFC8141Only))
				m.WithParsingMode(v)
			}
			for _, p := range probes {
				u, err := m.Parse([]byte(p))
				if got, w := see(u, err), probeTable[probeKey{effective(v), p}]; got != w {
					e.report(10, &Viol{Check: "modes", Ops: []int{}, Message: fmt.Sprintf("mode value %d (as an %s) gives %s, %s for %q; want %s, %s", v, how, got.v, got.err, p, w.v, w.err)})
				}
			}
		}
	}
	e.stats.Spaces["option lists and mode changes"] = map[string]int64{"option_lists": int64(len(os)), "change_lists": int64(len(ls)), "cases": n}
	e.stats.Spaces["mode values"] = map[string]int64{"values": int64(len(vals)), "cases": int64(2 * len(vals))}
	e.stats.Evaluations = n + int64(shared)
	e.stats.Traces = e.stats.Evaluations * int64(len(probes))
	e.stats.States = 3
	e.stats.Transitions = n
	for i := 0; i < len(cases); i += len(cases)/9 + 1 {
		e.sample(fmt.Sprint(i), modeText(cases[i]))
	}
}

// ------------------------------------------------------------------ U17

func typeName(s string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("TypeFromString(%q) panics: %v", s, r)
		}
	}()
	want := scimschema.Unsupported
	switch s {
	case "schemas":
		want = scimschema.Schemas
	case "api":
		want = scimschema.API
	case "param":
		want = scimschema.Param
	}
	if got := scimschema.TypeFromString(s); got != want {
		return fmt.Sprintf("TypeFromString(%q) = %d, want %d", s, got, want)
	}
	if want != scimschema.Unsupported {
		if got := want.String(); got != s {
			return fmt.Sprintf("the type of %q is written %q", s, got)
		}
	}
	return ""
}

func typeValue(v int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("Type(%d).String() panics: %v", v, r)
		}
	}()
	t := scimschema.Type(v)
	want := ""
	switch t {
	case scimschema.Schemas:
		want = "schemas"
	case scimschema.API:
		want = "api"
	case scimschema.Param:
		want = "param"
	}
	if got := t.String(); got != want {
		return fmt.Sprintf("Type(%d).String() = %q, want %q", v, got, want)
	}
	return ""
}

func runTypes(e *Env) {
	if scimschema.Schemas == scimschema.API || scimschema.API == scimschema.Param || scimschema.Schemas == scimschema.Param ||
		scimschema.Unsupported == scimschema.Schemas || scimschema.Unsupported == scimschema.API || scimschema.Unsupported == scimschema.Param {
		e.report(0, &Viol{Check: "name", Input: []byte("api"), Message: "the type values are not distinct"})
	}
	var names, values int64
	one := func(b []byte) {
		atomic.AddInt64(&names, 1)
		if msg := typeName(string(b)); msg != "" {
			e.report(1, &Viol{Check: "name", Input: append([]byte{}, b...), Message: msg})
		}
	}
	one(nil)
	top := 16
	e.parallel(top, func(i int) {
		step := 256 / top
		var buf [3]byte
		for c := i * step; c < (i+1)*step; c++ {
			buf[0] = byte(c)
			one(buf[:1])
			for d := 0; d < 256; d++ {
				buf[1] = byte(d)
				one(buf[:2])
				for g := 0; g < 256; g++ {
					buf[2] = byte(g)
					one(buf[:3])
				}
			}
		}
	})
	lits := []string{"schemas", "api", "param", "Schemas", "API", "Param", "schema", "params", "apis", "unsupported", "Unsupported", "urn:ietf:params:scim:api", "0", "1", "2", "3"}
	lits = append(lits, harvest(true).Strings...)
	e.parallel(len(lits), func(i int) {
		s := []byte(lits[i])
		one(s)
		if len(s) > 64 {
			return
		}
		edits1(s, nil, one)
		if len(s) <= 8 {
			edits1(s, nil, func(x []byte) {
				edits1(append([]byte(nil), x...), []byte("aAsSpP0 \x00:ms"), one)
			})
		}
		// letter case patterns
		if len(s) <= 10 {
			for mask := 0; mask < 1<<len(s); mask++ {
				x := append([]byte(nil), s...)
				for k := range x {
					if mask>>k&1 == 1 && (x[k]|0x20 >= 'a' && x[k]|0x20 <= 'z') {
						x[k] ^= 0x20
					}
				}
				one(x)
			}
		}
		one([]byte(lits[i] + lits[i]))
		for _, o := range []string{"schemas", "api", "param"} {
			one([]byte(lits[i] + o))
			one([]byte(o + lits[i]))
		}
	})
	// Words over the letters of the names
	letters := []byte("schemapir")
	depth := 6
	if e.Thorough {
		depth = 8
	}
	e.parallel(len(letters), func(i int) {
		words(letters, depth-1, func(x []byte) { one(append([]byte{letters[i]}, x...)) })
	})
	val := func(v int) {
		values++
		if msg := typeValue(v); msg != "" {
			e.report(2, &Viol{Check: "value", Ops: []int{v}, Message: msg})
		}
	}
	for v := -70000; v <= 70000; v++ {
		val(v)
	}
	for k := 16; k < 63; k++ {
		for d := -4; d <= 4; d++ {
			val(1<<uint(k) + d)
			val(-(1 << uint(k)) + d)
		}
	}
	val(math.MaxInt64)
	val(math.MinInt64)
	e.stats.Spaces["names"] = map[string]int64{"names": names}
	e.stats.Spaces["values"] = map[string]int64{"values": values}
	e.stats.Evaluations = names + values
	e.stats.Traces = names + values
	e.stats.States = 4
	e.stats.Transitions = names + values
	e.stats.Outcomes["supported names"] = 3
	for _, s := range lits[:8] {
		e.sample(s, map[string]interface{}{"name": s, "type": int(scimschema.TypeFromString(s))})
	}
}

var _ = json.Marshal
