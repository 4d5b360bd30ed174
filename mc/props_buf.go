package main

import (
	"bytes"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"
	"unsafe"

	urn "github.com/leodido/go-urn"

	"urnverif/model"
)

func init() {
	props["U12"] = &Prop{
		Run: func(e *Env) {
			e.stats.Assumptions = append(e.stats.Assumptions, "a write to (or a read around) the input bytes through the slice faults on a read-only (or on an unmapped guard) page; the fault is turned into a panic by runtime/debug.SetPanicOnFault")
			e.runHistories()
			e.exploreInputs(e.light(allModes), allModes, checkBuffer)
			e.finish(allModes)
		},
		Replay: func(v *Viol) string {
			if v.Check == "history" {
				return replayHistory("U12", v)
			}
			e := newEnv("U12", "quick", 1, 1)
			w := &Worker{env: e, slots: map[string]interface{}{}, counts: map[string]int64{}}
			return guarded(w, model.Mode(v.Mode), v.Input, checkBuffer)
		},
	}
}

// arena is memory visible twice: read-write for the harness, read-only (between two unmapped pages) for the code under test.
type arena struct {
	rw, ro []byte
}

const arenaSize = 1 << 23

func newArena() (*arena, error) {
	f, err := os.CreateTemp(scratchDir(), "arena")
	if err != nil {
		return nil, err
	}
	defer f.Close()
	defer os.Remove(f.Name())
	if err := f.Truncate(arenaSize); err != nil {
		return nil, err
	}
	page := os.Getpagesize()
	rw, err := syscall.Mmap(int(f.Fd()), 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	// Reserve address space, then map the file in its middle
	all, err := syscall.Mmap(-1, 0, arenaSize+2*page, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON)
	if err != nil {
		return nil, err
	}
	at := uintptr(unsafe.Pointer(&all[0])) + uintptr(page)
	const mapFixed = 0x10
	got, _, errno := syscall.Syscall6(syscall.SYS_MMAP, at, arenaSize, syscall.PROT_READ, syscall.MAP_SHARED|mapFixed, f.Fd(), 0)
	if errno != 0 || got != at {
		return nil, fmt.Errorf("mapping at a fixed address: %v", errno)
	}
	return &arena{rw: rw, ro: all[page : page+arenaSize : page+arenaSize]}, nil
}

var tails = []string{"", "x", ":x", "?+a", "#f%4B", "%4B", "\x00\xff"}

type seenResult struct {
	v   View
	err string
}

// U12
func checkBuffer(w *Worker, m model.Mode, in []byte) string {
	if len(in) > arenaSize-64 || len(in) == 0 {
		return ""
	}
	a, _ := w.slots["arena"].(*arena)
	if a == nil {
		var err error
		if a, err = newArena(); err != nil {
			panic("harness: " + err.Error())
		}
		w.slots["arena"] = a
		debug.SetPanicOnFault(true)
	}
	o := w.env.tabs[m].Run(in)
	n := len(in)
	// Right before the guard page, with no room to grow
	off := arenaSize - n
	copy(a.rw[off:], in)
	u, err, fault := parseFaulting(m, a.ro[off:arenaSize:arenaSize])
	if fault != "" {
		return m.String() + " on read-only memory before a guard page: " + fault
	}
	before := seenResult{view(u), errText(err)}
	w.traces++
	// Now the caller's bytes change
	for i := range in {
		a.rw[off+i] = 'Z'
	}
	after := seenResult{view(u), errText(err)}
	if before != after {
		return fmt.Sprintf("%s: changing the input bytes after the parse changed the result: %s, %s; was %s, %s", m, after.v, after.err, before.v, before.err)
	}
	if o.Cat == model.OK && u != nil {
		w.count("accepted")
		nv := view(u.Normalize())
		p := model.Decompose(m, string(in))
		if nv.ID != model.LowerASCII(p.NID) || nv.SS != model.NormSS(p.NSS) {
			return fmt.Sprintf("%s: after the input bytes changed the normal form is %s", m, nv)
		}
		b, _ := u.MarshalJSON()
		if !bytes.Equal(b, jsonString(before.v.Str)) {
			return fmt.Sprintf("%s: after the input bytes changed the JSON form is %s", m, head(string(b), 300))
		}
	}
	// After the other guard page, in the middle of a larger array
	k, _ := w.slots["tail"].(int)
	w.slots["tail"] = k + 1
	tail := tails[k%len(tails)]
	copy(a.rw, in)
	copy(a.rw[n:], tail)
	for i := n + len(tail); i < n+32; i++ {
		a.rw[i] = 'a'
	}
	r, _ := w.slots["machine"+m.String()].(urn.Machine)
	if r == nil {
		r = urn.NewMachine(urn.WithParsingMode(realMode(m)))
		w.slots["machine"+m.String()] = r
	}
	u2, err2, fault := parseOnFaulting(r, a.ro[0:n:n+32])
	if fault != "" {
		return m.String() + " on read-only memory within a larger array: " + fault
	}
	second := seenResult{view(u2), errText(err2)}
	w.traces++
	if second != before {
		return fmt.Sprintf("%s: with %q after the input in the same array: %s, %s; without: %s, %s", m, tail, second.v, second.err, before.v, before.err)
	}
	for i := 0; i < n+32; i++ {
		a.rw[i] = ':'
	}
	second = seenResult{view(u2), errText(err2)}
	if second != before || errText(r.Error()) != before.err {
		return fmt.Sprintf("%s: changing the input bytes after the parse changed the result: %s, %s (last error %s); was %s, %s", m, second.v, second.err, errText(r.Error()), before.v, before.err)
	}
	// The package-level function
	off = arenaSize - n
	copy(a.rw[off:], in)
	u3, ok, fault := parsePFaulting(m, a.ro[off:arenaSize:arenaSize])
	if fault != "" {
		return m.String() + " Parse on read-only memory before a guard page: " + fault
	}
	w.traces++
	if ok {
		v3 := view(u3)
		for i := range in {
			a.rw[off+i] = '%'
		}
		if v := view(u3); v != v3 {
			return fmt.Sprintf("%s Parse: changing the input bytes after the parse changed the URN: %s; was %s", m, v, v3)
		}
	}
	return ""
}

func faultText(r interface{}) string {
	if e, ok := r.(interface{ Addr() uintptr }); ok {
		return fmt.Sprintf("memory fault at %#x: %v\n%s", e.Addr(), r, debug.Stack())
	}
	return fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
}

func parseFaulting(m model.Mode, in []byte) (u *urn.URN, err error, fault string) {
	return parseOnFaulting(urn.NewMachine(urn.WithParsingMode(realMode(m))), in)
}

func parseOnFaulting(mc urn.Machine, in []byte) (u *urn.URN, err error, fault string) {
	defer func() {
		if r := recover(); r != nil {
			fault = faultText(r)
		}
	}()
	debug.SetPanicOnFault(true)
	u, err = mc.Parse(in)
	return
}

func parsePFaulting(m model.Mode, in []byte) (u *urn.URN, ok bool, fault string) {
	defer func() {
		if r := recover(); r != nil {
			fault = faultText(r)
		}
	}()
	debug.SetPanicOnFault(true)
	u, ok = parseP(m, in)
	return
}
