// Command mc decides the properties of github.com/leodido/go-urn by explicit-state
// model checking: see /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

// Prop is the decider of one property.
type Prop struct {
	Run func(e *Env)
	// Replay re-runs one violation from scratch: the message, or "" if it does not show.
	Replay func(v *Viol) string
}

var props = map[string]*Prop{}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|child|replay|confirm ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(supervise(os.Args[2]))
	case "child":
		child(os.Args[2])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "confirm": // one box, in its own process
		os.Exit(confirmBox(os.Args[2], os.Args[3]))
	case "alone": // one call, in its own process
		os.Exit(alone())
	case "limited": // a program that may write so many bytes to a file, and no more
		os.Exit(limited(os.Args[2], os.Args[3:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func tierSeed() (string, int64) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	return tier, seed
}

func (e *Env) out() Out {
	o := Out{Stats: e.stats, Viol: e.viol, Key: e.violKey, Modes: e.modes, Seen: map[int][]uint64{}}
	for _, m := range e.modes {
		o.Seen[int(m)] = e.seen[m]
	}
	return o
}

func (e *Env) flush() {
	e.mu.Lock()
	defer e.mu.Unlock()
	if err := writeJSON(filepath.Join(scratchDir(), fmt.Sprintf("out%d.json", e.Shard)), e.out()); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func child(id string) {
	tier, seed := tierSeed()
	workers := runtime.NumCPU()
	if s, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil {
		workers = s
	}
	e := newEnv(id, tier, seed, workers)
	if n, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && n > 1 {
		e.Shards = n
		e.Shard, _ = strconv.Atoi(os.Getenv("VERIF_SHARD"))
		e.Workers = 1
		if e.ctl = openControl(filepath.Join(scratchDir(), "control")); e.ctl == nil {
			fmt.Fprintln(os.Stderr, "no memory to share")
			os.Exit(2)
		}
		heapLimit = 3 << 30
	}
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		os.Exit(2)
	}
	debug.SetGCPercent(1000)
	p.Run(e)
	if e.viol != nil && p.Replay != nil && e.viol.Reproduced == "" {
		n := 0
		for i := 0; i < 5; i++ {
			if p.Replay(e.viol) != "" {
				n++
			}
		}
		e.viol.Reproduced = fmt.Sprintf("%d/5 from a fresh state", n)
	}
	e.flush()
}

// sharded are the properties whose exploration is shared by processes of one goroutine each.
var sharded = map[string]bool{"U01": true, "U02": true, "U03": true, "U04": true, "U05": true, "U06": true, "U07": true, "U08": true, "U09": true,
	"U10": true, "U11": true, "U12": true, "U13": true, "U15": true, "U16": true, "U21": true, "U23": true}

// explore runs the exploring processes of a property; one that ends abnormally ends the others.
func explore(id, scratch string, shards int, workers string) (outs []Out, errText string, err error) {
	type ended struct {
		i    int
		text string
		err  error
	}
	done := make(chan ended, shards)
	var cmds []*exec.Cmd
	for i := 0; i < shards; i++ {
		os.Remove(filepath.Join(scratch, fmt.Sprintf("out%d.json", i)))
		cmd := exec.Command(os.Args[0], "child", id)
		cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch)
		if workers != "" {
			cmd.Env = append(cmd.Env, "VERIF_WORKERS="+workers, "GOMAXPROCS=2")
		}
		if shards > 1 {
			cmd.Env = append(cmd.Env, fmt.Sprintf("VERIF_SHARDS=%d", shards), fmt.Sprintf("VERIF_SHARD=%d", i), "GOMAXPROCS=2")
		}
		errb := &strings.Builder{}
		cmd.Stderr = &limitedWriter{b: errb}
		cmd.Stdout = os.Stdout
		if err := cmd.Start(); err != nil {
			for _, c := range cmds {
				c.Process.Kill()
			}
			return nil, "", err
		}
		cmds = append(cmds, cmd)
		go func(i int) {
			err := cmd.Wait()
			done <- ended{i, errb.String(), err}
		}(i)
	}
	outs = make([]Out, shards)
	for n := 0; n < shards; n++ {
		d := <-done
		if err != nil {
			continue // ended by the one before
		}
		err, errText = d.err, d.text
		if err == nil {
			var b []byte
			if b, err = os.ReadFile(filepath.Join(scratch, fmt.Sprintf("out%d.json", d.i))); err == nil {
				err = json.Unmarshal(b, &outs[d.i])
			}
		}
		if err != nil {
			for _, c := range cmds {
				c.Process.Kill()
			}
		}
	}
	return outs, errText, err
}

// supervise runs the child; a crash or a hang of the code under test is not a crash of the check.
func supervise(id string) int {
	start := time.Now()
	tier, seed := tierSeed()
	scratch, err := os.MkdirTemp("", "urnverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	var out Out
	var viol *Viol
	tries := []string{"", "1", "1"}
	got := false
	for i, workers := range tries {
		os.Remove(filepath.Join(scratch, "died"))
		os.Remove(filepath.Join(scratch, "control"))
		shards := 1
		if sharded[id] && workers == "" {
			shards = runtime.NumCPU()
		}
		outs, errText, err := explore(id, scratch, shards, workers)
		if err == nil {
			out = merge(outs)
			out.Stats.coverage(out.Modes, out.Seen)
			got = true
			break
		}
		died, _ := os.ReadFile(filepath.Join(scratch, "died"))
		fmt.Fprintf(os.Stderr, "mc: the exploring process ended abnormally (%v, %s), attempt %d:\n%s\n", err, died, i+1, head(errText, 3000))
		// Is there one input that does it alone?
		if v := postMortem(id, scratch, string(died), errText); v != nil {
			viol = v
			break
		}
		if i == len(tries)-1 {
			// Deterministically crashing, single-threaded, without a single input to blame
			viol = &Viol{Property: id, Check: "process", Message: "the process exploring the code under test crashed three times: " + head(errText, 2000)}
		}
	}
	if got {
		viol = out.Viol
	}
	st := out.Stats
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s":      time.Since(start).Seconds(),
		"violations":  b2i(viol != nil),
		"assumptions": nonNil(st.Assumptions),
	}
	samples := st.Samples
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"states": st.States, "transitions": st.Transitions, "traces_validated_against_impl": st.Traces,
		"samples": samples, "exhaustive": st.Exhaustive && viol == nil, "evaluations": st.Evaluations,
		"outcomes": st.Outcomes, "spaces": st.Spaces,
	}
	for k, x := range st.Extra {
		cov[k] = x
	}
	ev["coverage"] = cov
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces run on the implementation, %d distinct outcomes, exhaustive=%v, %.1fs\n",
		id, tier, st.States, st.Transitions, st.Traces, len(st.Outcomes), st.Exhaustive && viol == nil, time.Since(start).Seconds())
	if viol == nil {
		return 0
	}
	dir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".json")
	writeJSON(path, viol)
	fmt.Printf("  %s\n", head(viol.Message, 1500))
	if viol.Quoted != "" {
		fmt.Printf("  input: %s\n", viol.Quoted)
	}
	for _, t := range viol.Text {
		fmt.Printf("  %s\n", t)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type limitedWriter struct{ b *strings.Builder }

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < 1<<16 {
		w.b.Write(p)
	}
	return len(p), nil
}

// postMortem re-runs, each in its own process, the inputs the workers were on.
func postMortem(id, scratch, died, stderr string) *Viol {
	boxes, _ := filepath.Glob(filepath.Join(scratch, "box*"))
	var why string
	who := -1
	fmt.Sscanf(died, "%s %d", &why, &who)
	for _, b := range boxes {
		if why == "hang" && filepath.Base(b) != fmt.Sprintf("box%d", who) {
			continue
		}
		_, mode, in, ok := readBox(b)
		if !ok {
			continue
		}
		cp := filepath.Join(scratch, "confirm-"+filepath.Base(b))
		data, _ := os.ReadFile(b)
		os.WriteFile(cp, data, 0o644)
		bad := 0
		var last string
		for i := 0; i < 2; i++ {
			cmd := exec.Command(os.Args[0], "confirm", id, cp)
			cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+scratch)
			o, err := cmd.CombinedOutput()
			if err == nil {
				break
			}
			bad++
			last = head(string(o), 1500)
		}
		if bad == 2 {
			return &Viol{Property: id, Check: "input", Mode: int(mode), Input: in, Quoted: quote(in), Reproduced: "2/2 in a fresh process",
				Message: "the implementation crashes, never ends or exhausts the memory on this input: " + last}
		}
	}
	return nil
}

func confirmBox(id, path string) int {
	_, mode, in, ok := readBox(path)
	if !ok {
		return 0
	}
	go func() {
		end := time.Now().Add(30 * time.Second)
		for {
			time.Sleep(200 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				fmt.Println("the heap grew over the limit")
				os.Exit(41)
			}
			if time.Now().After(end) {
				fmt.Println("no end after 30 seconds")
				os.Exit(40)
			}
		}
	}()
	p := props[id]
	if p == nil || p.Replay == nil {
		return 0
	}
	if msg := p.Replay(&Viol{Property: id, Check: "input", Mode: int(mode), Input: in}); msg != "" {
		fmt.Println(msg)
		return 1
	}
	return 0
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Viol
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[v.Property]
	if p == nil || p.Replay == nil {
		fmt.Fprintln(os.Stderr, "not replayable alone: run the check again")
		return 2
	}
	if msg := p.Replay(&v); msg != "" {
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		return 1
	}
	fmt.Println("the property holds on this replay")
	return 0
}
