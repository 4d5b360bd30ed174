// Command cost measures the work done by the operations on pumped inputs of growing length:
// statements executed (on the instrumented copy), bytes allocated, and, with -cpu, processor time.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	urn "github.com/leodido/go-urn"

	"urnverif/zzv"
)

// Family is pre u^k mid v^k suf for every k.
type Family struct {
	Mode                int
	Pre, U, Mid, V, Suf []byte
	Hand                bool // not parsed: U is pumped in the identifier, V in the specific string
	History             bool // not one long input, but many parses and observations of short ones
	Num                 bool // with a number after each U (after Pre, for a history), so that no two of them are the same
}

// number is a number in four characters of base 36.
func number(b []byte, i int) []byte {
	const digits = "0123456789abcdefghijklmnopqrstuvwxyz"
	return append(b, digits[i/36/36/36%36], digits[i/36/36%36], digits[i/36%36], digits[i%36])
}

func (f *Family) input(n int) []byte {
	unit := len(f.U) + len(f.V)
	if f.Num {
		unit += 4
	}
	k := (n - len(f.Pre) - len(f.Mid) - len(f.Suf)) / unit
	if k < 1 {
		k = 1
	}
	b := make([]byte, 0, n+unit)
	b = append(b, f.Pre...)
	for i := 0; i < k; i++ {
		b = append(b, f.U...)
		if f.Num {
			b = number(b, i)
		}
	}
	b = append(b, f.Mid...)
	for i := 0; i < k; i++ {
		b = append(b, f.V...)
	}
	return append(b, f.Suf...)
}

func (f *Family) String() string {
	if f.Num {
		g := *f
		g.Num = false
		return g.String() + ", with a number after each of the first"
	}
	if f.Hand {
		return fmt.Sprintf("built by hand, identifier (%q)^k, specific string (%q)^k", f.U, f.V)
	}
	if f.History {
		return fmt.Sprintf("k parses of %q with one parser, mode %d, and k observations of one URN", f.Pre, f.Mode)
	}
	s := fmt.Sprintf("mode %d: %q (%q)^k", f.Mode, f.Pre, f.U)
	if len(f.Mid)+len(f.V) > 0 {
		s += fmt.Sprintf(" %q (%q)^k", f.Mid, f.V)
	}
	return s + fmt.Sprintf(" %q", f.Suf)
}

// Cost of every operation.
type Cost struct {
	N     int // bytes of input
	Steps map[string]int64
	Alloc int64
	CPU   map[string]int64 // ns
	Over  string           // the operation that went over the limit
}

var cpuMode bool

func cpuNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3 /* CLOCK_THREAD_CPUTIME_ID */, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

func allocNow() int64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.TotalAlloc)
}

var sink interface{}

type other struct{ name, ss string }

// others are specific strings to compare one with.
func others(ss string) []other {
	if ss == "" {
		return nil
	}
	n := len(ss)
	each := func(f func(i int, c byte) byte) string {
		b := []byte(ss)
		for i, c := range b {
			b[i] = f(i, c)
		}
		return string(b)
	}
	flip := func(_ int, c byte) byte {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			return c ^ 0x20
		}
		return c
	}
	return []other{
		{"itself", ss},
		{"in the other case", each(flip)},
		{"another last byte", ss[:n-1] + string(rune(ss[n-1]&0x7f^1))},
		{"one less", ss[:n-1]},
		{"turned", ss[n/2:] + ss[:n/2]},
	}
}

// run measures every operation of a family at one size.
func (f *Family) run(n int, limitRate float64) (c Cost) {
	c.Steps, c.CPU = map[string]int64{}, map[string]int64{}
	what := ""
	defer func() {
		zzv.Limit = 0
		if r := recover(); r != nil {
			c.Over = what
			if r != interface{}(zzv.OverLimit) {
				c.Over = "" // a panic is the business of other properties
			}
		}
	}()
	var in []byte
	var hand *urn.URN
	switch {
	case f.Hand:
		h := *f
		h.Pre, h.Mid, h.Suf = nil, nil, nil
		id, ss := h, h
		id.V, ss.U = nil, nil
		if len(id.U) == 0 {
			id.U = []byte("a")
		}
		if len(ss.V) == 0 {
			ss.V = []byte("a")
		}
		if f.Num {
			ss.U, ss.V = ss.V, nil
		}
		hand = &urn.URN{ID: string(id.input(n / 2)), SS: string(ss.input(n / 2))}
		c.N = len(hand.ID) + len(hand.SS)
	case f.History:
		c.N = n
	default:
		in = f.input(n)
		c.N = len(in)
	}
	measure := func(name string, op func()) {
		what = name
		if cpuMode {
			start := cpuNow()
			op()
			c.CPU[name] = cpuNow() - start
			return
		}
		zzv.Steps = 0
		if limitRate > 0 {
			zzv.Limit = int64(limitRate*float64(c.N)) + 1<<20
		}
		op()
		zzv.Limit = 0
		c.Steps[name] = zzv.Steps
	}
	var before int64
	if !cpuMode {
		before = allocNow()
	}
	u := hand
	switch {
	case f.History:
		mc := urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(f.Mode)))
		k := n / (len(f.Pre) + 1)
		pre := func(int) []byte { return f.Pre }
		var all [][]byte
		if f.Num {
			k = n / (len(f.Pre) + 5)
			for i := 0; i < k; i++ {
				all = append(all, append(number(append([]byte(nil), f.Pre...), i), f.Suf...))
			}
			pre = func(i int) []byte { return all[i] }
		}
		measure("parses", func() {
			for i := 0; i < k; i++ {
				u, _ = mc.Parse(pre(i))
			}
		})
		if u != nil && f.Num {
			us := make([]*urn.URN, k)
			for i := range us {
				us[i], _ = urn.Parse(all[i], urn.WithParsingMode(urn.ParsingMode(f.Mode)))
				if us[i] == nil {
					us[i] = u
				}
			}
			measure("observations of each", func() {
				for i := 0; i < k; i++ {
					sink = us[i].String()
					sink = us[i].Normalize()
					sink = us[i].Equal(u)
					sink, _ = us[i].MarshalJSON()
					if s := us[i].SCIM(); s != nil {
						sink = s.String()
					}
				}
			})
			var js [][]byte
			for i := 0; i < k; i++ {
				b, _ := json.Marshal(string(all[i]))
				js = append(js, b)
			}
			measure("decoding each", func() {
				for i := 0; i < k; i++ {
					switch urn.ParsingMode(f.Mode) {
					case urn.RFC8141Only:
						var x urn.URN8141
						sink = x.UnmarshalJSON(js[i])
					case urn.RFC7643Only:
						var x urn.SCIM
						sink = x.UnmarshalJSON(js[i])
					default:
						var x urn.URN
						sink = x.UnmarshalJSON(js[i])
					}
				}
			})
		}
		if u != nil {
			measure("observations", func() {
				for i := 0; i < k; i++ {
					sink = u.String()
					sink = u.Normalize()
					sink = u.Equal(u)
				}
			})
		}
		measure("package parses", func() {
			for i := 0; i < k; i++ {
				sink, _ = urn.Parse(pre(i), urn.WithParsingMode(urn.ParsingMode(f.Mode)))
			}
		})
	case hand == nil:
		mc := urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(f.Mode)))
		measure("parse", func() {
			var err error
			u, err = mc.Parse(in)
			if err != nil {
				sink = err.Error()
			}
		})
		if u == nil {
			js, _ := json.Marshal(string(in))
			measure("unmarshal", func() {
				var x urn.URN
				var y urn.URN8141
				var z urn.SCIM
				for _, v := range []json.Unmarshaler{&x, &y, &z} {
					if err := v.UnmarshalJSON(js); err != nil {
						sink = err.Error()
					}
				}
			})
		}
		fallthrough
	default:
		if u == nil {
			break
		}
		measure("string", func() { sink = u.String() })
		var nu *urn.URN
		measure("normalize", func() { nu = u.Normalize() })
		measure("equal", func() { sink = u.Equal(nu) && nu.Equal(u) })
		for _, o := range others(u.SS) {
			x := &urn.URN{ID: u.ID, SS: o.ss}
			measure("equal: "+o.name, func() { sink = u.Equal(x) == x.Equal(u) })
		}
		var b []byte
		measure("marshal", func() { b, _ = u.MarshalJSON() })
		measure("unmarshal", func() {
			switch urn.ParsingMode(f.Mode) {
			case urn.RFC8141Only:
				var x urn.URN8141
				sink = x.UnmarshalJSON(b)
			case urn.RFC7643Only:
				var x urn.SCIM
				sink = x.UnmarshalJSON(b)
			default:
				var x urn.URN
				sink = x.UnmarshalJSON(b)
			}
		})
		if s := u.SCIM(); s != nil {
			measure("SCIM string", func() { sink = s.String() })
			measure("SCIM marshal", func() { sink, _ = s.MarshalJSON() })
		}
		measure("read", func() { sink = u.RComponent() + u.QComponent() + u.FComponent() })
	}
	if !cpuMode {
		c.Alloc = allocNow() - before
	}
	return c
}

// Finding is a violation.
type Finding struct {
	Family  Family `json:"family"`
	Message string `json:"message"`
}

// Result is what a process did.
type Result struct {
	Families, Runs, Steps, Bytes, Accepted int64
	MaxStepsPerByte                        map[string]float64
	MaxAllocPerByte                        float64
	MaxNsPerByte                           map[string]float64
	Suspects                               int64
	Complete                               bool
	Violation                              *Finding
	Samples                                []string
}

func main() {
	inPath := flag.String("families", "", "")
	outPath := flag.String("out", "", "")
	note := flag.String("note", "", "")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	secs := flag.Int("secs", 60, "")
	small := flag.Int("small", 1024, "")
	large := flag.Int("large", 8192, "")
	confirm := flag.Int("confirm", 65536, "")
	flag.BoolVar(&cpuMode, "cpu", false, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	runtime.LockOSThread()
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	var fs []Family
	b, err := os.ReadFile(*inPath)
	if err == nil {
		err = json.Unmarshal(b, &fs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	res := Result{MaxStepsPerByte: map[string]float64{}, MaxNsPerByte: map[string]float64{}, Complete: true}
	if len(fs) > 0 { // warm up: what is built once, and what the json package caches
		for m := 1; m <= 3; m++ {
			(&Family{Mode: m, Pre: []byte("urn:ietf:params:scim:api:n"), U: []byte("a")}).run(64, 0)
		}
	}
	for i := range fs {
		if i%*of != *shard {
			continue
		}
		if time.Now().After(deadline) {
			res.Complete = false
			break
		}
		f := &fs[i]
		if *note != "" && (cpuMode || i%64 == *shard) {
			os.WriteFile(*note, []byte(f.String()), 0o644)
		}
		res.Families++
		if cpuMode {
			judgeCPU(f, *small, *large, &res)
		} else {
			judge(f, *small, *large, *confirm, &res)
		}
		if res.Violation != nil {
			break
		}
	}
	js, _ := json.Marshal(res)
	if *outPath == "" {
		fmt.Println(string(js))
		return
	}
	if err := os.WriteFile(*outPath, js, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func rate(x int64, n int) float64 { return float64(x) / float64(n) }

// growth: at n bytes, is it far more per byte than at the smallest size, and still growing?
func growth(x0, x1, x2 int64, n0, n1, n2 int, floor float64) bool {
	return rate(x2, n2) > 5*rate(x0, n0)+floor && rate(x2, n2) > 1.4*rate(x1, n1)
}

// most is the work of the operation that does most of it: one that does none at a small size, as it can tell at once
// that two URNs differ, or has kept what it needs, may well look at everything at a larger one.
func (c Cost) most() (n int64) {
	for _, s := range c.Steps {
		if s > n {
			n = s
		}
	}
	return
}

// judge doubles the size from the small to the large one, and goes on to the confirming size for a suspect: one
// that does twice (and a little) the work per byte at the large size. A violation does over five times the work
// per byte, and more from each size to the next.
func judge(f *Family, small, large, confirm int, res *Result) {
	a := f.run(small, 0.5e5)
	bound := 0.0
	for _, s := range a.Steps {
		if r := rate(s, a.N); r > bound {
			bound = r
		}
	}
	limit := 64 * (bound + 4)
	over := func(n int, c Cost) bool {
		if c.Over == "" {
			return false
		}
		for i := 0; i < 2; i++ {
			if x := f.run(n, limit); x.Over == "" {
				return false
			}
		}
		res.Violation = &Finding{*f, fmt.Sprintf("%s: %s executes over %.0f statements per byte on an input of %d bytes (at most %.1f on one of %d bytes)", f, c.Over, limit, c.N, bound, a.N)}
		return true
	}
	if a.Over != "" {
		limit = 0.5e5
		over(small, a)
		return
	}
	if _, ok := a.Steps["string"]; ok {
		res.Accepted++
	}
	res.Runs++
	b := a
	for n := 2 * small; n <= confirm; n *= 2 {
		c := f.run(n, limit)
		if over(n, c) {
			return
		}
		if c.Over != "" {
			return
		}
		res.Runs++
		res.Bytes += int64(c.N)
		for k, s := range c.Steps {
			res.Steps += s
			if r := rate(s, c.N); r > res.MaxStepsPerByte[k] {
				res.MaxStepsPerByte[k] = float64(int(r*100)) / 100
			}
		}
		if r := rate(c.Alloc, c.N); r > res.MaxAllocPerByte {
			res.MaxAllocPerByte = float64(int(r*100)) / 100
		}
		if n >= 8*small {
			msg := func() string {
				for k := range c.Steps {
					if growth(a.most(), b.Steps[k], c.Steps[k], a.N, b.N, c.N, 50) {
						return fmt.Sprintf("%s: %s executes %.1f statements per byte on an input of %d bytes (no operation more than %.1f), %.1f on %d, %.1f on %d", f, k, rate(a.Steps[k], a.N), a.N, rate(a.most(), a.N), rate(b.Steps[k], b.N), b.N, rate(c.Steps[k], c.N), c.N)
					}
				}
				if growth(a.Alloc, b.Alloc, c.Alloc, a.N, b.N, c.N, 64) {
					return fmt.Sprintf("%s: the operations allocate %.1f bytes per byte of an input of %d bytes, %.1f of %d, %.1f of %d", f, rate(a.Alloc, a.N), a.N, rate(b.Alloc, b.N), b.N, rate(c.Alloc, c.N), c.N)
				}
				return ""
			}
			if msg() != "" {
				// Again
				bad := 0
				for i := 0; i < 4; i++ {
					a, b, c = f.run(small, limit), f.run(n/2, limit), f.run(n, limit)
					if msg() != "" {
						bad++
					}
				}
				if bad == 4 {
					res.Violation = &Finding{*f, msg()}
					return
				}
			}
		}
		if n == large && len(res.Samples) < 2 && (len(a.Steps) > 1 || len(res.Samples) < 1) {
			res.Samples = append(res.Samples, fmt.Sprintf("%s: %d bytes: steps %v, %d bytes allocated; %d bytes: steps %v, %d bytes allocated", f, a.N, a.Steps, a.Alloc, c.N, c.Steps, c.Alloc))
		}
		b = c
		if n >= large {
			suspect := rate(c.Alloc, c.N) > 2*rate(a.Alloc, a.N)+16
			for k, s := range c.Steps {
				suspect = suspect || rate(s, c.N) > 2*rate(a.Steps[k], a.N)+2
			}
			if !suspect {
				return
			}
			if n == large {
				res.Suspects++
			}
		}
	}
}

// judgeCPU: what goes on within the standard library is seen as processor time only. The margin is large:
// over 1.5 microseconds per byte, and over half of what quadratic growth from the small size gives, five times out of five.
func judgeCPU(f *Family, small, large int, res *Result) {
	for n := 8 * small; n <= large; n *= 2 {
		b := f.run(n, 0)
		res.Runs++
		res.Bytes += int64(b.N)
		for k, s := range b.CPU {
			if r := rate(s, b.N); r > res.MaxNsPerByte[k] {
				res.MaxNsPerByte[k] = float64(int(r*10)) / 10
			}
			if rate(s, b.N) <= 1500 {
				continue
			}
			res.Suspects++
			bad := 0
			var sa, sb []string
			for i := 0; i < 5; i++ {
				x, y := f.run(small, 0), f.run(n, 0)
				if rate(y.CPU[k], y.N) > 1500 && rate(y.CPU[k], y.N) > 0.4*float64(n)/float64(small)*rate(x.CPU[k], x.N) {
					bad++
				}
				sa, sb = append(sa, fmt.Sprintf("%.1f", rate(x.CPU[k], x.N))), append(sb, fmt.Sprintf("%.1f", rate(y.CPU[k], y.N)))
			}
			if bad == 5 {
				res.Violation = &Finding{*f, fmt.Sprintf("%s: %s takes %s ns per byte on an input of %d bytes, and %s on %d", f, k, strings.Join(sa, ", "), small, strings.Join(sb, ", "), b.N)}
				return
			}
		}
	}
}
