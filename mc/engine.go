package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"urnverif/model"
)

// verifDir is where /verif is.
func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Viol is one violation: enough to replay it.
type Viol struct {
	Property   string   `json:"property"`
	Check      string   `json:"check"`           // which check function
	Mode       int      `json:"mode,omitempty"`  // model.Mode
	Input      []byte   `json:"input,omitempty"` // base64 in JSON
	Quoted     string   `json:"quoted,omitempty"`
	Ops        []int    `json:"ops,omitempty"`
	Text       []string `json:"text,omitempty"` // readable history
	Message    string   `json:"message"`
	Space      string   `json:"space,omitempty"`
	Reproduced string   `json:"reproduced,omitempty"`
}

// Stats is what a check measured.
type Stats struct {
	Evaluations int64                  `json:"evaluations"`
	States      int64                  `json:"states"`
	Transitions int64                  `json:"transitions"`
	Traces      int64                  `json:"traces"`
	Outcomes    map[string]int64       `json:"outcomes"`
	Spaces      map[string]interface{} `json:"spaces"`
	Samples     []interface{}          `json:"samples"`
	Exhaustive  bool                   `json:"exhaustive"`
	Assumptions []string               `json:"assumptions"`
	Extra       map[string]interface{} `json:"extra"`
}

// Out is what the child process hands over to its parent.
type Out struct {
	Stats Stats `json:"stats"`
	Viol  *Viol `json:"viol"`

	Key   int              `json:"key"`
	Modes []model.Mode     `json:"modes"`
	Seen  map[int][]uint64 `json:"seen"` // transitions of the model visited, by mode
}

// Env is a run of one property.
type Env struct {
	Prop     string
	Tier     string
	Seed     int64
	Workers  int
	Deadline time.Time
	Thorough bool

	mu      sync.Mutex
	sampled map[string]int
	stats   Stats
	viol    *Viol
	violKey int
	stop    int32

	noHistory int64 // differences from the model that need no history

	Shard, Shards int      // this process among those exploring the property
	ctl           *control // shared by them
	regions       int
	modes         []model.Mode // whose automata are covered
	tabs          [4]*model.Table
	seen          [4][]uint64
}

func newEnv(prop, tier string, seed int64, workers int) *Env {
	e := &Env{Prop: prop, Tier: tier, Seed: seed, Workers: workers, Thorough: tier == "thorough"}
	budget := 100 * time.Second
	if e.Thorough {
		budget = 720 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	e.Deadline = time.Now().Add(budget)
	e.stats.Exhaustive = true
	e.stats.Outcomes = map[string]int64{}
	e.stats.Spaces = map[string]interface{}{}
	e.stats.Extra = map[string]interface{}{}
	for m := model.M2141; m <= model.M8141; m++ {
		e.tabs[m] = model.Build(m)
		e.seen[m] = make([]uint64, (len(e.tabs[m].States)*256+63)/64)
	}
	return e
}

func (e *Env) stopped() bool {
	return atomic.LoadInt32(&e.stop) != 0 || e.ctl != nil && atomic.LoadInt64(&e.ctl[0]) != 0
}

// control is memory shared by the processes that explore a property: a flag (stop) and one counter for
// each region they share the work of. Each process has one exploring goroutine, and the package-level
// state of the code under test of its own: what is kept between calls (say, by a cache of one entry)
// is not disturbed by another goroutine's calls, so that a history happens as enumerated.
type control [1 << 10]int64

func openControl(path string) *control {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	size := int(unsafe.Sizeof(control{}))
	if err := f.Truncate(int64(size)); err != nil {
		return nil
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return (*control)(unsafe.Pointer(&mem[0]))
}

// first tells whether this process is the one that does what is not shared out.
func (e *Env) first() bool { return e.Shard == 0 }

// counter gives the indexes of the next region of shared work, one after the other.
func (e *Env) counter() func() int {
	next := new(int64)
	if e.ctl != nil {
		e.regions++
		next = &e.ctl[e.regions]
	}
	return func() int { return int(atomic.AddInt64(next, 1)) - 1 }
}

// report records a violation; among several, the one of the lowest key (task index), then the shortest one, is kept.
func (e *Env) report(key int, v *Viol) {
	e.mu.Lock()
	defer e.mu.Unlock()
	atomic.StoreInt32(&e.stop, 1)
	if e.ctl != nil {
		atomic.StoreInt64(&e.ctl[0], 1)
	}
	if e.viol == nil || key < e.violKey || key == e.violKey && len(v.Input)+len(v.Ops) < len(e.viol.Input)+len(e.viol.Ops) {
		v.Property = e.Prop
		if v.Input != nil && v.Quoted == "" {
			v.Quoted = quote(v.Input)
		}
		e.viol, e.violKey = v, key
	}
}

func quote(b []byte) string {
	if len(b) > 400 {
		return strconv.QuoteToASCII(string(b[:200])) + fmt.Sprintf("...(%d bytes)...", len(b)) + strconv.QuoteToASCII(string(b[len(b)-100:]))
	}
	return strconv.QuoteToASCII(string(b))
}

// sample keeps at most two samples of a kind.
func (e *Env) sample(kind string, x interface{}) {
	e.mu.Lock()
	if e.sampled == nil {
		e.sampled = map[string]int{}
	}
	e.sampled[kind]++
	if e.sampled[kind] <= 2 && len(e.stats.Samples) < 40 {
		e.stats.Samples = append(e.stats.Samples, x)
	}
	e.mu.Unlock()
}

func (e *Env) outcome(k string, n int64) {
	e.mu.Lock()
	e.stats.Outcomes[k] += n
	e.mu.Unlock()
}

// ---------------------------------------------------------------- workers

// Worker is the state private to one goroutine exploring tasks.
type Worker struct {
	env      *Env
	id       int
	task     int
	seen     [4][]uint64
	outcomes [4][32]int64
	evals    int64
	traces   int64
	beat     int64 // progress, read by the watchdog
	box      *box
	slots    map[string]interface{} // per-check private state
	counts   map[string]int64
}

func (w *Worker) count(k string) { w.counts[k]++ }

// box is where a worker leaves the input being parsed, for the post mortem of a crash or of a hang.
type box struct {
	mem []byte // mmapped file
}

const boxSize = 1 << 19

func newBox(path string) *box {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if err := f.Truncate(boxSize); err != nil {
		return nil
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, boxSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &box{mem}
}

func (b *box) put(check, mode byte, in []byte) {
	if b == nil {
		return
	}
	n := len(in)
	if n > boxSize-16 {
		n = boxSize - 16
	}
	b.mem[0], b.mem[1] = check, mode
	b.mem[2], b.mem[3], b.mem[4], b.mem[5] = byte(n), byte(n>>8), byte(n>>16), 1
	copy(b.mem[16:], in[:n])
}

func readBox(path string) (check, mode byte, in []byte, ok bool) {
	d, err := os.ReadFile(path)
	if err != nil || len(d) < 16 || d[5] != 1 {
		return
	}
	n := int(d[2]) | int(d[3])<<8 | int(d[4])<<16
	if 16+n > len(d) {
		return
	}
	return d[0], d[1], d[16 : 16+n], true
}

func scratchDir() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// Task is a part of a space: it emits inputs.
type Task struct {
	Space string
	Modes []model.Mode // nil: every mode of the property
	Run   func(emit func([]byte))
}

// Check decides one input in one mode: nil if the property holds on it.
type Check func(w *Worker, m model.Mode, in []byte) string

// exploreInputs runs a check on every input of every task, in the given modes.
func (e *Env) exploreInputs(tasks []Task, modes []model.Mode, check Check) {
	next := e.counter()
	var wg sync.WaitGroup
	type sp struct{ inputs, tasks, done int64 }
	spaces := map[string]*sp{}
	for _, t := range tasks {
		if spaces[t.Space] == nil {
			spaces[t.Space] = &sp{}
		}
		spaces[t.Space].tasks++
	}
	workers := make([]*Worker, e.Workers)
	for i := range workers {
		w := &Worker{env: e, id: i, slots: map[string]interface{}{}, counts: map[string]int64{}}
		w.box = newBox(filepath.Join(scratchDir(), fmt.Sprintf("box%d", 100*e.Shard+i)))
		for m := model.M2141; m <= model.M8141; m++ {
			w.seen[m] = make([]uint64, len(e.seen[m]))
		}
		workers[i] = w
	}
	stopWatch := make(chan struct{})
	go e.watchdog(workers, stopWatch)
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for !e.stopped() {
				ti := next()
				if ti >= len(tasks) {
					return
				}
				if time.Now().After(e.Deadline) {
					e.mu.Lock()
					e.stats.Exhaustive = false
					e.mu.Unlock()
					return
				}
				t := tasks[ti]
				w.task = ti
				ms := t.Modes
				if ms == nil {
					ms = modes
				}
				var n int64
				cut := false
				runTask(t, func(in []byte) {
					n++
					if n == 1 && ti%7 == 0 || n == 77 {
						for _, m := range ms {
							if hasMode(modes, m) {
								o := e.tabs[m].Run(in)
								e.sample(t.Space, map[string]interface{}{"space": t.Space, "mode": m.String(), "input": quote(in), "model_outcome": o.Cat.String(), "column": o.Col})
								break
							}
						}
					}
					if n&0x3ff == 0 && (e.stopped() || time.Now().After(e.Deadline)) {
						cut = true
						panic(cutSignal)
					}
					for _, m := range ms {
						if !hasMode(modes, m) {
							continue
						}
						w.one(m, in, check, t.Space)
					}
				})
				e.mu.Lock()
				spaces[t.Space].inputs += n
				if !cut {
					spaces[t.Space].done++
				} else {
					e.stats.Exhaustive = false
				}
				e.mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	close(stopWatch)
	e.mu.Lock()
	defer e.mu.Unlock()
	for name, s := range spaces {
		e.stats.Spaces[name] = map[string]int64{"inputs": s.inputs, "tasks": s.tasks, "tasks_completed": s.done}
	}
	for _, w := range workers {
		e.stats.Evaluations += w.evals
		e.stats.Traces += w.traces
		for m := model.M2141; m <= model.M8141; m++ {
			for i, x := range w.seen[m] {
				e.seen[m][i] |= x
			}
			for c, n := range w.outcomes[m] {
				if n > 0 {
					e.stats.Outcomes[m.String()+" "+model.Cat(c).String()] += n
				}
			}
		}
		for k, n := range w.counts {
			e.stats.Outcomes[k] += n
		}
	}
}

func hasMode(ms []model.Mode, m model.Mode) bool {
	for _, x := range ms {
		if x == m {
			return true
		}
	}
	return false
}

// one runs the check on one input.
func (w *Worker) one(m model.Mode, in []byte, check Check, space string) {
	w.box.put(0, byte(m), in)
	atomic.AddInt64(&w.beat, 1)
	o := w.env.tabs[m].RunVisit(in, w.seen[m])
	w.outcomes[m][o.Cat]++
	w.evals++
	msg := guarded(w, m, in, check)
	if msg != "" {
		w.env.report(w.task, &Viol{Check: "input", Mode: int(m), Input: append([]byte(nil), in...), Message: msg, Space: space})
	}
}

func guarded(w *Worker, m model.Mode, in []byte, check Check) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	return check(w, m, in)
}

const hangAfter = 40 * time.Second

var heapLimit uint64 = 8 << 30

// watchdog ends the process when a single evaluation makes no progress for a long time or memory explodes.
func (e *Env) watchdog(ws []*Worker, stop chan struct{}) {
	last := make([]int64, len(ws))
	since := make([]time.Time, len(ws))
	for i := range since {
		since[i] = time.Now()
	}
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for n := 0; ; n++ {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		now := time.Now()
		for i, w := range ws {
			b := atomic.LoadInt64(&w.beat)
			if b != last[i] {
				last[i], since[i] = b, now
			} else if e.stopped() && b > 0 && now.Sub(since[i]) > 10*time.Second {
				// another worker already reported, this one hangs
				e.flush()
				os.Exit(0)
			} else if b > 0 && now.Sub(since[i]) > hangAfter && !e.stopped() {
				os.WriteFile(filepath.Join(scratchDir(), "died"), []byte(fmt.Sprintf("hang %d", 100*e.Shard+i)), 0o644)
				os.Exit(40)
			}
		}
		if n%4 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				os.WriteFile(filepath.Join(scratchDir(), "died"), []byte("heap -1"), 0o644)
				os.Exit(41)
			}
		}
	}
}

// finish tells of which modes the model is covered.
func (e *Env) finish(modes []model.Mode) { e.modes = modes }

// coverage computes the coverage of the model from the transitions visited by all the processes.
func (s *Stats) coverage(modes []model.Mode, seen map[int][]uint64) {
	for _, m := range modes {
		t := model.Build(m)
		n := int64(0)
		states := map[int]bool{}
		for i, x := range seen[int(m)] {
			for b := 0; b < 64; b++ {
				if x>>b&1 == 1 {
					n++
					states[(i*64+b)>>8] = true
				}
			}
		}
		s.Transitions += n
		s.States += int64(len(states))
		s.Extra["model_"+m.String()] = map[string]int{
			"states": len(t.States), "transitions": len(t.States) * 256,
			"states_visited": len(states), "transitions_visited": int(n)}
	}
}

// merge puts together what several processes measured.
func merge(outs []Out) Out {
	r := outs[0]
	if r.Stats.Extra == nil {
		r.Stats.Extra = map[string]interface{}{}
	}
	for _, o := range outs[1:] {
		if o.Viol != nil && (r.Viol == nil || o.Key < r.Key || o.Key == r.Key && len(o.Viol.Input)+len(o.Viol.Ops) < len(r.Viol.Input)+len(r.Viol.Ops)) {
			r.Viol, r.Key = o.Viol, o.Key
		}
		r.Stats.Evaluations += o.Stats.Evaluations
		r.Stats.Traces += o.Stats.Traces
		r.Stats.Transitions += o.Stats.Transitions
		if o.Stats.States > r.Stats.States {
			r.Stats.States = o.Stats.States
		}
		r.Stats.Exhaustive = r.Stats.Exhaustive && o.Stats.Exhaustive
		for k, n := range o.Stats.Outcomes {
			r.Stats.Outcomes[k] += n
		}
		if r.Seen == nil {
			r.Seen = map[int][]uint64{}
		}
		for _, m := range o.Modes {
			if r.Seen[int(m)] == nil {
				r.Modes = append(r.Modes, m)
				r.Seen[int(m)] = make([]uint64, len(o.Seen[int(m)]))
			}
		}
		for m, s := range o.Seen {
			for i, x := range s {
				r.Seen[m][i] |= x
			}
		}
	}
	// Samples: some of each process
	var samples []interface{}
	for i := 0; len(samples) < 40; i++ {
		any := false
		for _, o := range outs {
			if i < len(o.Stats.Samples) && len(samples) < 40 {
				samples = append(samples, o.Stats.Samples[i])
				any = true
			}
		}
		if !any {
			break
		}
	}
	r.Stats.Samples = samples
	// Spaces: a count that is not the same everywhere is a share
	for name := range r.Stats.Spaces {
		total, ok := r.Stats.Spaces[name].(map[string]interface{})
		if !ok {
			continue
		}
		for k := range total {
			sum, same := 0.0, true
			for _, o := range outs {
				m, _ := o.Stats.Spaces[name].(map[string]interface{})
				x, _ := m[k].(float64)
				y, _ := total[k].(float64)
				sum += x
				same = same && x == y
			}
			if !same {
				total[k] = sum
			}
		}
	}
	return r
}

func writeJSON(path string, x interface{}) error {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type cutType struct{}

var cutSignal = &cutType{}

// runTask runs a task until its end or until it is cut.
func runTask(t Task, emit func([]byte)) {
	defer func() {
		if r := recover(); r != nil && r != interface{}(cutSignal) {
			panic(r)
		}
	}()
	t.Run(emit)
}
