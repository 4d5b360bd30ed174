// Command sched explores the interleavings of two or three threads over the instrumented
// copy of the code under test: every schedule with at most so many preemptions.
//
// It is built twice: plainly (the results of each thread are compared with the ones it gets
// alone), and with the race detector, which sees none of the hand-offs.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/zzv"
)

// ctx is what the threads of one execution share.
type ctx struct {
	a, b, c    []byte // one URN of every mode
	ea, eb, ec []byte // and one that is none
	ja, jb, jc []byte // JSON strings
	ua, ub, uc *urn.URN
	va, vb, vc *urn.URN // variants
	hand       *urn.URN // not parsed
	doc        *urn.URN8141
	scim       *urn.SCIM
	before     string
	extra      map[int]*shared // by operation
}

// shared is one input, and the URN it gives.
type shared struct {
	mode urn.ParsingMode
	in   []byte
	u    *urn.URN
	js   []byte
}

// Input is an input of the whole cycle of operations.
type Input struct {
	Mode int
	In   []byte
}

func parse(m urn.ParsingMode, in string) *urn.URN {
	u, err := urn.NewMachine(urn.WithParsingMode(m)).Parse([]byte(in))
	if err != nil {
		return nil
	}
	return u
}

func newCtx() *ctx {
	c := &ctx{
		a: []byte("URN:a:B%C3"), b: []byte("Urn:Ab:c%4A?+r?=q#f"), c: []byte("urn:ietf:params:scim:api:n:%C3"),
		ea: []byte("urn:a:%/"), eb: []byte("urn:ab:c?+/"), ec: []byte("urn:ietf:params:scim:x"),
		ja: []byte(`"urn:a:b%C3"`), jb: []byte(`"urn:ab:c?=q#f"`), jc: []byte(`"urn:ietf:params:scim:param:n"`),
	}
	c.ua, c.va = parse(urn.RFC2141Only, "URN:a:B%C3"), parse(urn.RFC2141Only, "urn:A:B%c3")
	c.ub, c.vb = parse(urn.RFC8141Only, "Urn:Ab:c%4A?+r?=q#f"), parse(urn.RFC8141Only, "urn:aB:c%4a")
	c.uc, c.vc = parse(urn.RFC7643Only, "urn:ietf:params:scim:api:n:%C3"), parse(urn.RFC7643Only, "URN:ietf:params:scim:api:n:%c3")
	c.hand = &urn.URN{ID: "X", SS: "%A1y"}
	if c.ub != nil {
		c.doc = &urn.URN8141{URN: c.ub}
	}
	if c.uc != nil {
		c.scim = c.uc.SCIM()
	}
	return c
}

func (c *ctx) view() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %q %q %q %q %q %q %q", c.a, c.b, c.c, c.ea, c.eb, c.ec, c.ja, c.jb, c.jc)
	for _, u := range []*urn.URN{c.ua, c.ub, c.uc, c.va, c.vb, c.vc, c.hand} {
		b.WriteString(show(u, nil))
	}
	var keys []int
	for k := range c.extra {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		x := c.extra[k]
		fmt.Fprintf(&b, "%q %q %s", x.in, x.js, show(x.u, nil))
	}
	return b.String()
}

func show(u *urn.URN, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if u == nil {
		return "nil"
	}
	s := fmt.Sprintf("{%q %q %q r%q q%q f%q %d %v", u.ID, u.SS, u.String(), u.RComponent(), u.QComponent(), u.FComponent(), u.RFC(), u.IsSCIM())
	if x := u.SCIM(); x != nil {
		s += fmt.Sprintf(" %d %q %q %q", x.Type, x.Name, x.Other, x.String())
	}
	return s + "}"
}

// op is what one thread does: the part with points, and how to print its result (printed once all threads ended).
type op struct {
	name string
	run  func(c *ctx) func() string
}

func str(s string) func() string { return func() string { return s } }

func parseOp(name string, m urn.ParsingMode, in func(c *ctx) []byte) op {
	return op{name, func(c *ctx) func() string {
		mc := urn.NewMachine(urn.WithParsingMode(m))
		u, err := mc.Parse(in(c))
		last := mc.Error()
		return func() string { return show(u, err) + fmt.Sprint(last) }
	}}
}

func packageOp(name string, m urn.ParsingMode, in func(c *ctx) []byte) op {
	return op{name, func(c *ctx) func() string {
		u, ok := urn.Parse(in(c), urn.WithParsingMode(m))
		return func() string { return show(u, nil) + fmt.Sprint(ok) }
	}}
}

func inA(c *ctx) []byte  { return c.a }
func inB(c *ctx) []byte  { return c.b }
func inC(c *ctx) []byte  { return c.c }
func inEA(c *ctx) []byte { return c.ea }
func inEB(c *ctx) []byte { return c.eb }
func inEC(c *ctx) []byte { return c.ec }

var ops = []op{
	parseOp("parse 2141", urn.RFC2141Only, inA),
	parseOp("parse 8141", urn.RFC8141Only, inB),
	parseOp("parse SCIM", urn.RFC7643Only, inC),
	parseOp("parse bad 2141", urn.RFC2141Only, inEA),
	parseOp("parse bad 8141", urn.RFC8141Only, inEB),
	parseOp("parse bad SCIM", urn.RFC7643Only, inEC),
	{"package parse, default mode", func(c *ctx) func() string {
		u, ok := urn.Parse(c.a)
		return func() string { return show(u, nil) + fmt.Sprint(ok) }
	}},
	packageOp("package parse 8141", urn.RFC8141Only, inB),
	packageOp("package parse SCIM", urn.RFC7643Only, inC),
	packageOp("package parse bad 8141", urn.RFC8141Only, inEB),
	{"reuse a machine over modes", func(c *ctx) func() string {
		mc := urn.NewMachine()
		e1, err1 := mc.Parse(c.ea)
		mc.WithParsingMode(urn.RFC8141Only)
		u2, err2 := mc.Parse(c.b)
		return func() string { return show(e1, err1) + show(u2, err2) + fmt.Sprint(mc.Error()) }
	}},
	{"unmarshal URN", func(c *ctx) func() string {
		var u urn.URN
		err := json.Unmarshal(c.ja, &u)
		return func() string { return show(&u, err) }
	}},
	{"unmarshal URN8141", func(c *ctx) func() string {
		var u urn.URN8141
		err := u.UnmarshalJSON(c.jb)
		return func() string { return show(u.URN, err) }
	}},
	{"unmarshal SCIM", func(c *ctx) func() string {
		var s urn.SCIM
		err := s.UnmarshalJSON(c.jc)
		return func() string { return fmt.Sprintf("%d %q %q %q %v", s.Type, s.Name, s.Other, s.String(), err) }
	}},
	{"unmarshal bad URN8141", func(c *ctx) func() string {
		var u urn.URN8141
		err := json.Unmarshal([]byte(`"urn:ab:"`), &u)
		return func() string { return fmt.Sprint(u.URN == nil, err) }
	}},
	{"String 8141", func(c *ctx) func() string { return str(c.ub.String()) }},
	{"String SCIM", func(c *ctx) func() string { return str(c.scim.String() + c.uc.String()) }},
	{"Normalize 2141", func(c *ctx) func() string {
		n := c.ua.Normalize()
		return func() string { return show(n, nil) }
	}},
	{"Normalize 8141", func(c *ctx) func() string {
		n := c.ub.Normalize()
		return func() string { return show(n, nil) }
	}},
	{"Normalize by hand", func(c *ctx) func() string {
		n := c.hand.Normalize()
		return func() string { return show(n, nil) }
	}},
	{"Equal 2141", func(c *ctx) func() string { return str(fmt.Sprint(c.ua.Equal(c.va), c.ua.Equal(c.hand))) }},
	{"Equal 8141", func(c *ctx) func() string { return str(fmt.Sprint(c.ub.Equal(c.vb), c.vb.Equal(c.ub))) }},
	{"Equal SCIM, by hand", func(c *ctx) func() string { return str(fmt.Sprint(c.uc.Equal(c.vc), c.hand.Equal(c.uc))) }},
	{"marshal URN", func(c *ctx) func() string {
		b, err := json.Marshal(c.ua)
		return func() string { return string(b) + fmt.Sprint(err) }
	}},
	{"marshal URN8141", func(c *ctx) func() string {
		b, err := c.doc.MarshalJSON()
		return func() string { return string(b) + fmt.Sprint(err) }
	}},
	{"marshal SCIM", func(c *ctx) func() string {
		b, err := c.scim.MarshalJSON()
		return func() string { return string(b) + fmt.Sprint(err) }
	}},
	{"read", func(c *ctx) func() string {
		s := fmt.Sprint(c.ub.RComponent(), c.ub.QComponent(), c.ub.FComponent(), c.ub.RFC(), c.ub.IsSCIM(), c.uc.IsSCIM(), c.uc.SCIM() == c.scim, c.uc.SCIM().Type.String(), c.hand.String())
		return str(s)
	}},
	{"type names", func(c *ctx) func() string {
		return str(fmt.Sprint(scimschema.TypeFromString("api"), scimschema.TypeFromString("x"), scimschema.Param, scimschema.Type(9)))
	}},
}

// cycle is everything one can do with one input.
func cycle(i int, in Input) op {
	name := string(in.In)
	if len(name) > 80 {
		name = name[:40] + "..." + name[len(name)-20:]
	}
	return op{fmt.Sprintf("everything on %q, mode %d", name, in.Mode), func(c *ctx) func() string {
		x := c.extra[i]
		mc := urn.NewMachine(urn.WithParsingMode(x.mode))
		u, err := mc.Parse(x.in)
		p, ok := urn.Parse(x.in, urn.WithParsingMode(x.mode))
		last := mc.Error()
		d, dok := urn.Parse(x.in)
		var own urn.URN
		err2 := own.UnmarshalJSON(x.js)
		var o8 urn.URN8141
		err3 := o8.UnmarshalJSON(x.js)
		var n *urn.URN
		var strs string
		var ms [][]byte
		if x.u != nil && u != nil {
			n = x.u.Normalize()
			strs = x.u.RComponent() + x.u.QComponent() + x.u.FComponent() + x.u.String() + fmt.Sprint(x.u.RFC(), x.u.IsSCIM(), x.u.Equal(u), u.Equal(x.u), n.Equal(x.u), x.u.Equal(n))
			b, e := x.u.MarshalJSON()
			ms = append(ms, b)
			strs += fmt.Sprint(e)
			if sc := x.u.SCIM(); sc != nil {
				b, e := sc.MarshalJSON()
				ms = append(ms, b)
				strs += sc.String() + fmt.Sprint(e)
			}
		}
		return func() string {
			return show(u, err) + show(p, nil) + fmt.Sprint(ok, dok, last) + show(d, nil) + show(&own, err2) + show(o8.URN, err3) + show(n, nil) + strs + fmt.Sprintf("%q", ms)
		}
	}}
}

// Finding is a violation.
type Finding struct {
	Threads []string  `json:"threads"`
	Ops     []int     `json:"ops"`
	Warm    bool      `json:"warm"`
	Devs    []zzv.Dev `json:"schedule"`
	Often   int       `json:"often,omitempty"`
	Inputs  []Input   `json:"inputs,omitempty"` // what the operations beyond the fixed ones are about, in this order
	Message string    `json:"message"`
}

// Result is what one process did.
type Result struct {
	Scenarios, Schedules, Points, SyncScenarios, TooLong int64
	MaxPoints                                            int
	Bound                                                map[string]int64 // completed scenarios by bound
	Outcomes                                             map[string]int64
	Uncontrolled                                         map[string]int64
	Complete                                             bool
	Violation                                            *Finding
	Samples                                              []string
}

var res = Result{Bound: map[string]int64{}, Outcomes: map[string]int64{}, Uncontrolled: map[string]int64{}, Complete: true}

var inputs []Input

// often: how many times the second thread does its operation (0: once, like the first one).
var often int
var base int // the operations from here on are about the inputs

func fresh(sel []int, warm bool) *ctx {
	zzv.Reset()
	// What can be seen of the values, on others: looking is an operation, too
	before := newShared(sel).view()
	c := newShared(sel)
	c.before = before
	if !warm {
		zzv.Reset()
	}
	return c
}

func newShared(sel []int) *ctx {
	c := newCtx()
	c.extra = map[int]*shared{}
	for _, o := range sel {
		if o >= base {
			in := inputs[o-base]
			x := &shared{mode: urn.ParsingMode(in.Mode), in: append([]byte(nil), in.In...)}
			x.u = parse(x.mode, string(in.In))
			x.js, _ = json.Marshal(string(in.In))
			c.extra[o-base] = x
		}
	}
	return c
}

type execution struct {
	zzv.Execution
	results []string
	each    []string // what every time gives, if it is done often
	later   []string // the same operations again, afterwards
	after   string
	before  string
}

var watchdogBeat int64

func runOnce(sel []int, warm bool, devs []zzv.Dev) execution {
	watchdogBeat++
	c := fresh(sel, warm)
	outs := make([]func() string, len(sel))
	var bodies []func()
	for i, o := range sel {
		i, o := i, o
		bodies = append(bodies, func() { outs[i] = ops[o].run(c) })
	}
	var more []func() string
	if often > 0 && len(sel) == 2 {
		more = make([]func() string, 0, often)
		bodies[1] = func() {
			for k := 0; k < often; k++ {
				more = append(more, ops[sel[1]].run(c))
			}
			outs[1] = more[0]
		}
	}
	x := execution{Execution: zzv.Run(bodies, devs), before: c.before}
	for i := range sel {
		s := "no result"
		if outs[i] != nil {
			s = safely(outs[i])
		}
		x.results = append(x.results, s)
	}
	for _, f := range more {
		x.each = append(x.each, safely(f))
	}
	x.after = safely(c.view)
	if x.Bad == zzv.Fine && !x.Deadlock && len(x.Panics) == 0 {
		for _, o := range sel {
			o := o
			x.later = append(x.later, safely(func() string { return ops[o].run(c)() }))
		}
	}
	return x
}

func safely(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return f()
}

// judge: "" if the property holds on the execution.
func judge(x execution, want []string) string {
	if x.Deadlock {
		return "deadlock"
	}
	for _, p := range x.Panics {
		return fmt.Sprint("panic: ", p)
	}
	for i := range want {
		if x.results[i] != want[i] {
			return fmt.Sprintf("thread %d gets %s, alone it gets %s", i, x.results[i], want[i])
		}
	}
	for k, s := range x.each {
		if s != want[1] {
			return fmt.Sprintf("thread 1 gets %s from its operation number %d, alone it gets %s", s, k+1, want[1])
		}
	}
	for i, l := range x.later {
		if l != want[i] {
			return fmt.Sprintf("once the threads have ended, operation %d gives %s, alone it gave %s", i, l, want[i])
		}
	}
	if x.after != x.before {
		return "the shared values changed from " + x.before + " to " + x.after
	}
	return ""
}

type explorer struct {
	sel      []int
	warm     bool
	want     []string
	bound    int
	deadline time.Time
	cut      bool
	viol     *Finding
	lost     int
	syncOnly bool // preempt at synchronization operations only
	syncs    bool // there are some
	visits   int  // preempt at the first so many visits of each statement, and at the last one (0: at all)
}

func names(sel []int) (s []string) {
	for _, o := range sel {
		s = append(s, ops[o].name)
	}
	return
}

func (e *explorer) explore(devs []zzv.Dev, cost int) {
	if e.viol != nil || e.cut || e.lost != 0 {
		return
	}
	if res.Schedules&0xff == 0 && time.Now().After(e.deadline) {
		e.cut = true
		return
	}
	x := runOnce(e.sel, e.warm, devs)
	res.Schedules++
	res.Points += int64(len(x.Points))
	if len(x.Points) > res.MaxPoints {
		res.MaxPoints = len(x.Points)
	}
	if x.Bad != zzv.Fine {
		e.lost = x.Bad
		return
	}
	if msg := judge(x, e.want); msg != "" {
		e.viol = &Finding{Threads: names(e.sel), Ops: e.sel, Warm: e.warm, Devs: append([]zzv.Dev(nil), devs...), Often: often, Message: msg}
		return
	}
	from := 0
	if len(devs) > 0 {
		from = devs[len(devs)-1].At + 1
	}
	for _, p := range x.Points {
		e.syncs = e.syncs || p.Sync
	}
	if cost == e.bound && cost > 0 {
		// Only the free choices are left
		free := false
		for _, p := range x.Points[from:] {
			free = free || !p.Running && p.Others > 0
		}
		if !free {
			return
		}
	}
	pts := append([]zzv.Point(nil), x.Points...)
	var chosen map[int]bool
	if e.visits > 0 {
		type key struct {
			t    uint8
			site int32
			sync bool
		}
		seen, last := map[key]int{}, map[key]int{}
		chosen = map[int]bool{}
		for i, p := range pts {
			if !p.Running {
				chosen[i] = true
				continue
			}
			k := key{p.Thread, p.Site, p.Sync}
			if seen[k]++; seen[k] <= e.visits {
				chosen[i] = true
			}
			last[k] = i
		}
		for _, i := range last {
			chosen[i] = true
		}
	}
	for i := from; i < len(pts); i++ {
		p := pts[i]
		if often > 0 && p.Running && p.Thread != 0 {
			continue
		}
		if chosen != nil && !chosen[i] {
			continue
		}
		c := cost
		if p.Running {
			c++
		}
		if c > e.bound || p.Running && e.syncOnly && !p.Sync {
			continue
		}
		for alt := 1; alt <= int(p.Others); alt++ {
			e.explore(append(append([]zzv.Dev(nil), devs...), zzv.Dev{At: i, Alt: alt}), c)
		}
	}
}

// scenario explores one choice of operations.
func scenario(sel []int, warm bool, bound, syncBound, short, visits int, deadline time.Time) *Finding {
	res.Scenarios++
	e := &explorer{sel: sel, warm: warm, bound: bound, deadline: deadline, visits: visits}
	key := strings.Join(names(sel), " | ")
	// Alone, twice: the oracle, and that it is one
	for _, o := range sel {
		a, b := runOnce([]int{o}, warm, nil), runOnce([]int{o}, warm, nil)
		if a.Bad != zzv.Fine || b.Bad != zzv.Fine || a.results[0] != b.results[0] || len(a.Panics) != len(b.Panics) {
			res.Uncontrolled["alone: "+ops[o].name]++
			res.Complete = false
			return nil
		}
		if len(a.Panics) > 0 { // not a matter of interleavings
			res.Uncontrolled["panics alone: "+ops[o].name]++
			res.Complete = false
			return nil
		}
		e.want = append(e.want, a.results[0])
	}
	if short > 0 {
		if x := runOnce(sel, warm, nil); len(x.Points) > short {
			res.TooLong++
			return nil
		}
	}
	if times := often; times > 0 {
		// As often as there is room for
		often = 0
		n := len(runOnce(sel[:1], warm, nil).Points)
		each := len(runOnce(sel[1:], warm, nil).Points)
		if room := (zzv.MaxPoints - n - 1000) / (each + 1); room < times {
			times = room
		}
		if times < 2 {
			res.TooLong++
			return nil
		}
		often = times
		defer func() { often = *oftenFlag }()
	}
	e.explore(nil, 0)
	if e.syncs && syncBound > bound {
		e.syncOnly, e.bound = true, syncBound
		e.explore(nil, 0)
		res.SyncScenarios++
	}
	if e.lost != 0 {
		res.Uncontrolled[fmt.Sprintf("%s: %d", key, e.lost)]++
		res.Complete = false
		return nil
	}
	if e.cut {
		res.Complete = false
		return nil
	}
	if e.viol != nil {
		// The same schedule has to fail every time
		n := 0
		for i := 0; i < 5; i++ {
			x := runOnce(e.viol.Ops, warm, e.viol.Devs)
			if x.Bad == zzv.Fine && judge(x, e.want) != "" {
				n++
			}
		}
		for i, o := range e.viol.Ops {
			if o >= base {
				if len(e.viol.Inputs) == 0 {
					e.viol.Ops = append([]int(nil), e.viol.Ops...)
				}
				e.viol.Ops[i] = base + len(e.viol.Inputs)
				e.viol.Inputs = append(e.viol.Inputs, inputs[o-base])
			}
		}
		if n < 5 {
			res.Uncontrolled["does not reproduce: "+key]++
			res.Complete = false
			return nil
		}
		return e.viol
	}
	if often > 0 {
		res.Bound["one operation, interrupted by many"]++
	} else {
		res.Bound[fmt.Sprintf("%d threads, %d preemptions", len(sel), bound)]++
	}
	for i, o := range sel {
		if o < base {
			res.Outcomes[ops[o].name+" -> "+clip(e.want[i])]++
		} else {
			res.Outcomes["everything on one input"]++
		}
	}
	if len(res.Samples) < 2 {
		res.Samples = append(res.Samples, fmt.Sprintf("%s (bound %d, warm %v): all schedules give %s", key, bound, warm, clip(strings.Join(e.want, " | "))))
	}
	return nil
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

var oftenFlag = flag.Int("often", 0, "how many times the second thread does its operation")

func selections(threads int, same bool) [][]int {
	var out [][]int
	if often > 0 {
		// Each input interrupted by its variant
		for i := 0; i+1 < len(inputs); i += 2 {
			out = append(out, []int{base + i, base + i + 1})
		}
		return out
	}
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if same && len(cur) > 1 && cur[0] != cur[len(cur)-1] {
			return
		}
		if len(cur) == threads {
			out = append(out, append([]int(nil), cur...))
			return
		}
		for o := from; o < base; o++ {
			rec(o, append(cur, o))
		}
	}
	if len(inputs) > 0 {
		// Each input against itself, against its variant (of the same length), and against the next one
		for i := 0; i+1 < len(inputs); i += 2 {
			out = append(out, []int{base + i, base + i}, []int{base + i, base + i + 1}, []int{base + i, base + (i+2)%len(inputs)})
		}
		return out
	}
	rec(0, nil)
	return out
}

func main() {
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	threads := flag.Int("threads", 2, "")
	bound := flag.Int("bound", 2, "")
	syncBound := flag.Int("sync", 0, "the bound on the preemptions at synchronization operations alone")
	same := flag.Bool("same", false, "only scenarios of one operation against itself")
	short := flag.Int("short", 0, "leave out the scenarios whose executions without preemption have more points")
	visits := flag.Int("visits", 0, "preempt only at the first so many visits, and at the last one, of every statement by every thread")
	warm := flag.Bool("warm", false, "")
	secs := flag.Int("secs", 60, "")
	outPath := flag.String("out", "", "")
	note := flag.String("note", "", "where to leave the scenario being run")
	replay := flag.String("replay", "", "a finding, as JSON")
	inPath := flag.String("inputs", "", "explore the whole cycle of operations on these inputs")
	freeRun := flag.Int("free", 0, "run the scenarios freely, so many times each")
	flag.Parse()
	debug.SetGCPercent(400)
	base = len(ops)
	often = *oftenFlag
	if *inPath != "" {
		b, err := os.ReadFile(*inPath)
		if err == nil {
			err = json.Unmarshal(b, &inputs)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for i, in := range inputs {
			ops = append(ops, cycle(i, in))
		}
	}
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	if *freeRun > 0 {
		freely(*freeRun, *threads, *shard, *of, *note, deadline)
	} else {
		runtime.GOMAXPROCS(1)
		go watch()
	}
	leave := func(sel []int) {
		if *note != "" {
			os.WriteFile(*note, []byte(strings.Join(names(sel), " | ")), 0o644)
		}
	}
	switch {
	case *freeRun > 0:
	case *replay != "":
		var f Finding
		if err := json.Unmarshal([]byte(*replay), &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		inputs = f.Inputs
		for i, in := range inputs {
			ops = append(ops[:base+i], cycle(i, in))
		}
		var want []string
		for _, o := range f.Ops {
			if o >= len(ops) {
				os.Exit(2)
			}
			want = append(want, runOnce([]int{o}, f.Warm, nil).results[0])
		}
		often = f.Often
		x := runOnce(f.Ops, f.Warm, f.Devs)
		if x.Bad == zzv.Fine {
			if msg := judge(x, want); msg != "" {
				f.Message = msg
				res.Violation = &f
			}
		}
	default:
		for i, sel := range selections(*threads, *same) {
			if i%*of != *shard {
				continue
			}
			leave(sel)
			if res.Violation = scenario(sel, *warm, *bound, *syncBound, *short, *visits, deadline); res.Violation != nil {
				break
			}
			if time.Now().After(deadline) {
				res.Complete = false
				break
			}
		}
	}
	b, _ := json.Marshal(res)
	if *outPath != "" {
		if err := os.WriteFile(*outPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	fmt.Println(string(b))
}

// watch lets the threads go when an execution makes no progress: one waits for something that is not under control.
func watch() {
	lastBeat, lastN, same := int64(-1), -1, 0
	for {
		time.Sleep(time.Second)
		b, n := beatNow(), zzv.Progress()
		if b == lastBeat && n == lastN {
			same++
			if same == 10 {
				zzv.Release()
			}
			if same == 30 {
				os.Exit(3)
			}
		} else {
			same = 0
		}
		lastBeat, lastN = b, n
	}
}

//go:norace
func beatNow() int64 { return watchdogBeat }

// freely runs every scenario with real threads on all processors.
func freely(times, threads, shard, of int, note string, deadline time.Time) {
	for i, sel := range selections(threads, false) {
		if i%of != shard {
			continue
		}
		if note != "" {
			os.WriteFile(note, []byte(strings.Join(names(sel), " | ")), 0o644)
		}
		res.Scenarios++
		for k := 0; k < times; k++ {
			c := fresh(sel, true)
			var wg sync.WaitGroup
			begin := make(chan bool)
			for _, o := range sel {
				o := o
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-begin
					safely(ops[o].run(c))
				}()
			}
			close(begin)
			wg.Wait()
			res.Schedules++
		}
		if time.Now().After(deadline) {
			res.Complete = false
			return
		}
	}
}
