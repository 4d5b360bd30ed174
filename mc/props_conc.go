package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"urnverif/model"
)

// U14: the interleavings of threads, on an instrumented copy of the current sources.

func init() {
	props["U14"] = &Prop{Run: runConc, Replay: replayConc}
}

// instrumented makes the instrumented copy: the overlay, and whether the code can be explored.
func instrumented() (overlay, why string) {
	dir := filepath.Join(scratchDir(), "instr")
	tool := filepath.Join(scratchDir(), "instrument")
	if err := gobuild(tool, "./cmd/instrument"); err != nil {
		return "", err.Error()
	}
	out, err := exec.Command(tool, repoDir(), dir).CombinedOutput()
	if err != nil {
		return "", "instrumenting: " + head(string(out), 500)
	}
	ls := strings.Split(strings.TrimSpace(string(out)), "\n")
	if last := ls[len(ls)-1]; last != "controlled" {
		why = last
	}
	return filepath.Join(dir, "overlay.json"), why
}

func gobuild(out, pkg string, flags ...string) error {
	args := append([]string{"build"}, flags...)
	cmd := exec.Command("go", append(args, "-o", out, pkg)...)
	cmd.Dir = filepath.Join(verifDir(), "mc")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build %s: %v: %s", strings.Join(flags, " "), err, head(string(b), 1500))
	}
	return nil
}

type dev struct{ At, Alt int }

type concFinding struct {
	Threads  []string    `json:"threads"`
	Ops      []int       `json:"ops"`
	Warm     bool        `json:"warm"`
	Schedule []dev       `json:"schedule"`
	Often    int         `json:"often,omitempty"`
	Inputs   []concInput `json:"inputs,omitempty"`
	Message  string      `json:"message"`
}

type concResult struct {
	Scenarios, Schedules, Points, SyncScenarios, TooLong int64
	MaxPoints                                            int
	Bound, Outcomes, Uncontrolled                        map[string]int64
	Complete                                             bool
	Violation                                            *concFinding
	Samples                                              []string
}

type pass struct {
	name, bin string
	args      []string
}

func runConc(e *Env) {
	e.stats.Assumptions = []string{
		"sequentially consistent interleavings at the granularity of statements; within a statement, and for weaker memory orders, the race detector decides",
		"the standard library is not instrumented: what it does is atomic between two points",
	}
	sched, race, free := filepath.Join(scratchDir(), "sched"), filepath.Join(scratchDir(), "sched_race"), filepath.Join(scratchDir(), "free_race")
	overlay, why := instrumented()
	var passes []pass
	left := func() string { return fmt.Sprint(int(time.Until(e.Deadline).Seconds()) + 1) }
	if why == "" {
		var wg sync.WaitGroup
		errs := make([]error, 2)
		wg.Add(2)
		go func() { defer wg.Done(); errs[0] = gobuild(sched, "./cmd/sched", "-overlay", overlay) }()
		go func() { defer wg.Done(); errs[1] = gobuild(race, "./cmd/sched", "-race", "-overlay", overlay) }()
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				why = err.Error()
			}
		}
	}
	if err := gobuild(free, "./cmd/sched", "-race"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	freeTimes := "5"
	inPath := filepath.Join(scratchDir(), "inputs.json")
	largePath := filepath.Join(scratchDir(), "large.json")
	oftenPath := filepath.Join(scratchDir(), "often.json")
	ins := concInputs(false)
	for p, x := range map[string][]concInput{inPath: ins, largePath: concInputs(true), oftenPath: oftenInputs()} {
		if err := writeJSON(p, x); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	e.stats.Extra["cycle_inputs"] = len(ins)
	if why == "" {
		if e.Thorough {
			passes = append(passes,
				pass{"race detector, pairs, up to 1 preemption", race, []string{"-bound", "1"}},
				pass{"race detector, pairs, warm, up to 1 preemption", race, []string{"-bound", "1", "-warm"}},
				pass{"pairs, up to 1 preemption", sched, []string{"-bound", "1", "-sync", "4"}},
				pass{"pairs, warm, up to 1 preemption", sched, []string{"-bound", "1", "-sync", "4", "-warm"}},
				pass{"race detector, triples, no preemption", race, []string{"-bound", "0", "-threads", "3"}},
				pass{"pairs, up to 2 preemptions", sched, []string{"-bound", "2"}},
				pass{"triples, up to 1 preemption", sched, []string{"-bound", "1", "-sync", "2", "-threads", "3"}},
				pass{"everything on each input, race detector", race, []string{"-bound", "0", "-inputs", inPath}},
				pass{"everything on each input, race detector, warm", race, []string{"-bound", "0", "-warm", "-inputs", inPath}},
				pass{"everything on each input, up to 1 preemption (executions of at most 10000 points)", sched, []string{"-bound", "1", "-short", "10000", "-inputs", inPath}},
				pass{"everything on an input, interrupted once by everything on its variant, many times over", sched, []string{"-bound", "1", "-visits", "3", "-often", "2000", "-inputs", oftenPath}},
				pass{"one operation against itself, up to 3 preemptions", sched, []string{"-bound", "3", "-same"}})
			freeTimes = "200"
		} else {
			passes = append(passes,
				pass{"race detector, pairs, up to 1 preemption", race, []string{"-bound", "1"}},
				pass{"race detector, pairs, warm, no preemption", race, []string{"-bound", "0", "-warm"}},
				pass{"pairs, up to 1 preemption", sched, []string{"-bound", "1", "-sync", "3"}},
				pass{"pairs, warm, up to 1 preemption", sched, []string{"-bound", "1", "-warm"}},
				pass{"everything on each input, race detector", race, []string{"-bound", "0", "-inputs", inPath}},
				pass{"everything on each input, up to 1 preemption (executions of at most 1500 points)", sched, []string{"-bound", "1", "-short", "1500", "-inputs", inPath}},
				pass{"everything on each input, up to 1 preemption at the first and the last visit of each statement", sched, []string{"-bound", "1", "-visits", "1", "-short", "40000", "-inputs", inPath}},
				pass{"everything on an input, interrupted once by everything on its variant, many times over", sched, []string{"-bound", "1", "-visits", "1", "-often", "300", "-inputs", oftenPath}},
				pass{"one operation against itself, up to 2 preemptions (executions of at most 350 points)", sched, []string{"-bound", "2", "-same", "-short", "350"}})
		}
	} else {
		e.stats.Exhaustive = false
		e.stats.Extra["not_explored"] = why
		freeTimes = "200"
		if e.Thorough {
			freeTimes = "3000"
		}
	}
	passes = append(passes, pass{"free running, race detector", free, []string{"-free", freeTimes}},
		pass{"free running, everything on each large input, race detector", free, []string{"-free", "3", "-inputs", largePath}})
	bounds := map[string]int64{}
	unc := map[string]int64{}
	for i, p := range passes {
		start := time.Now()
		rs, v := e.runPass(p, left())
		var scen, schedules, tooLong int64
		complete := true
		maxPts := 0
		for _, r := range rs {
			scen += r.Scenarios - r.TooLong
			tooLong += r.TooLong
			schedules += r.Schedules
			complete = complete && r.Complete
			if r.MaxPoints > maxPts {
				maxPts = r.MaxPoints
			}
			if strings.HasPrefix(p.name, "free") {
				continue
			}
			e.stats.Traces += r.Schedules
			e.stats.Evaluations += r.Schedules
			e.stats.Transitions += r.Points
			e.stats.States += r.Schedules // the end state of every schedule
			for k, n := range r.Bound {
				bounds[k] += n
			}
			for k, n := range r.Outcomes {
				e.stats.Outcomes[k] += n
			}
			for k, n := range r.Uncontrolled {
				unc[k] += n
			}
			for _, s := range r.Samples {
				e.sample(p.name, map[string]string{"space": p.name, "scenario": s})
			}
		}
		e.stats.Spaces[p.name] = map[string]interface{}{"scenarios": scen, "schedules": schedules, "complete": complete, "left_out_as_too_long": tooLong, "longest_execution_points": maxPts, "seconds": int(time.Since(start).Seconds())}
		if !complete {
			e.stats.Exhaustive = false
		}
		if v != nil {
			e.report(i, v)
			break
		}
	}
	e.stats.Extra["completed_bounds"] = bounds
	e.stats.Extra["schedules"] = e.stats.Traces
	if len(unc) > 0 {
		e.stats.Extra["no_verdict"] = unc
	}
}

// concInput is an input of the whole cycle of operations.
type concInput struct {
	Mode int
	In   []byte
}

// concInputs: the seeds, the literals of the sources in the slots, long inputs; or the large ones.
func concInputs(large bool) (ins []concInput) {
	done := map[string]bool{}
	tabs := map[model.Mode]*model.Table{}
	for _, m := range allModes {
		tabs[m] = model.Build(m)
	}
	add := func(x string) {
		if done[x] {
			return
		}
		done[x] = true
		var modes []model.Mode
		for _, m := range allModes {
			if tabs[m].Run([]byte(x)).Cat == model.OK {
				modes = append(modes, m)
			}
		}
		if modes == nil {
			modes = []model.Mode{model.M8141}
			if strings.Contains(x, "scim") {
				modes = []model.Mode{model.M7643}
			}
		}
		for _, m := range modes {
			// and a variant: the same length and verdict, another letter towards the end, in the middle and at the beginning
			v := []byte(x)
			cat := tabs[m].Run(v).Cat
			for _, at := range []int{len(v) - 1, len(v) / 2, 5} {
				for i := at; i > 3 && i < len(v); i-- {
					old := v[i]
					if old|0x20 >= 'a' && old|0x20 <= 'z' {
						v[i] = old ^ 1
						if v[i]|0x20 >= 'a' && v[i]|0x20 <= 'z' && tabs[m].Run(v).Cat == cat {
							break
						}
						v[i] = old
					}
				}
			}
			ins = append(ins, concInput{int(realMode(m)), []byte(x)}, concInput{int(realMode(m)), v})
		}
	}
	if large {
		// Large ones, around every integer of the sources, too: what is done about them may differ
		sizes := []int{4200, 66000, 140000}
		for _, n := range harvest(false).Ints {
			if n > 1100 && n <= 1<<20 {
				sizes = append(sizes, n+1)
			}
		}
		for i, n := range sizes {
			add("URN:Ab:" + strings.Repeat("aB%4C", n/5+1))
			if i < 2 {
				add("urn:ietf:params:scim:api:n:" + strings.Repeat("%C3x", n/4))
				add("urn:Ab:c?+" + strings.Repeat("r", n) + "?=" + strings.Repeat("q%4A", n/4) + "#" + strings.Repeat("f", n/2))
			}
		}
		return
	}
	for _, s := range seeds {
		add(s)
	}
	// Three of every kind of rejection, each with its column, one after the other
	for _, m := range allModes {
		var order []model.Cat
		found := map[model.Cat][]string{}
		cols := map[model.Cat]map[int]bool{}
		try := func(x string) {
			o := tabs[m].Run([]byte(x))
			if o.Cat == model.OK || len(found[o.Cat]) == 3 || cols[o.Cat][o.Col] {
				return
			}
			if found[o.Cat] == nil {
				order = append(order, o.Cat)
				cols[o.Cat] = map[int]bool{}
			}
			cols[o.Cat][o.Col] = true
			found[o.Cat] = append(found[o.Cat], x)
		}
		for _, s := range append([]string{"urn:urn:x", "uRn:urn:x", "urn:a%:x", "urn:ab:c?+r?+x", "urn:ab:cc?+r?+x", "urn:ab:c?=q?=x", "urn:ab:c?=qqq?=x", "urn:urn-a:x", "urn:ietf:params:scim:api:n:", "urn:ietf:params:scim:api:nn:", "urn:ietf:params:scim:api:Nnn:"}, seeds...) {
			for i := len(s); i >= 0; i-- {
				for _, c := range []string{"", "?", "%", "/", "#", "_", "\x00", "%4"} {
					try(s[:i] + c)
					if i < len(s) {
						try(s[:i] + c + s[i+1:])
					}
				}
			}
		}
		for _, cat := range order {
			for _, x := range found[cat] {
				ins = append(ins, concInput{int(realMode(m)), []byte(x)}, concInput{int(realMode(m)), []byte(x + "x")})
			}
		}
	}
	for _, n := range []int{40, 70, 140, 300, 1100} {
		r := func(s string) string { return strings.Repeat(s, n) }
		for _, x := range []string{"urn:Ab:" + r("b"), "urn:Ab:" + r("%C3"), "urn:Ab:" + r("aB%4a:"), "urn:ietf:params:scim:api:" + r("N"), "urn:ietf:params:scim:api:n:" + r("%C3x:"),
			"urn:Ab:c?+" + r("r"), "urn:Ab:c?=" + r("q%4A"), "urn:Ab:c#" + r("f"), "urn:Ab:c?+" + r("r") + "?=" + r("q") + "#" + r("f"), "urn:ab:" + r("b") + "%", "urn:ab:" + r("b") + "?"} {
			add(x)
		}
	}
	for _, s := range harvest(false).Strings {
		if len(s) > 60 {
			continue
		}
		for _, p := range [][2]string{{"urn:", ":x%4A"}, {"urn:ab:", "%4A"}, {"urn:ab:c?+", ""}, {"urn:ab:c?=", ""}, {"urn:ab:c#", ""}, {"urn:ietf:params:scim:api:", ""}, {"urn:ietf:params:scim:api:n:", "%4A"}} {
			add(p[0] + s + p[1])
		}
	}
	return
}

// oftenInputs are a few short inputs, each with another one of the same length and shape.
func oftenInputs() (ins []concInput) {
	for _, x := range []struct {
		m    model.Mode
		a, b string
	}{
		{model.M2141, "URN:Abc:x%4Bc%C3Dy", "urn:deF:Z%5Ce%F3gH"},
		{model.M8141, "URN:Abc:x%4B?+r%4Cx?=Q%4D#f%5A", "urn:deF:Z%5C?+R%5Dy?=q%5E#F%4B"},
		{model.M7643, "URN:ietf:params:scim:api:Nam:oth%4B:x", "urn:ietf:params:scim:api:eMo:Reh%5C:Z"},
		{model.M2141, "urn:Ab:" + strings.Repeat("aB%4C", 14), "URN:cD:" + strings.Repeat("Ef%5d", 14)},
		{model.M8141, "urn:Ab:" + strings.Repeat("aB%4C", 120), "URN:cD:" + strings.Repeat("Ef%5d", 120)},
		{model.M8141, "urn:ab:c?+xyz?", "urn:ab:c?=xyz%"},
		{model.M2141, "urn:ab:c%4", "urn:ab-c:?"},
		{model.M7643, "urn:ietf:params:scim:apu:x", "urn:ietf:params:scim:api:="},
	} {
		ins = append(ins, concInput{int(realMode(x.m)), []byte(x.a)}, concInput{int(realMode(x.m)), []byte(x.b)})
	}
	return
}

// runPass runs a pass over all processors.
func (e *Env) runPass(p pass, secs string) ([]concResult, *Viol) {
	n := 8
	rs := make([]concResult, n)
	viols := make([]*Viol, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			rs[i], viols[i] = e.runShard(p, i, n, secs)
		}(i)
	}
	wg.Wait()
	for _, v := range viols {
		if v != nil {
			return rs, v
		}
	}
	return rs, nil
}

func (e *Env) runShard(p pass, i, n int, secs string) (r concResult, v *Viol) {
	out := filepath.Join(scratchDir(), fmt.Sprintf("shard%d.json", i))
	note := filepath.Join(scratchDir(), fmt.Sprintf("note%d", i))
	args := append([]string{"-shard", fmt.Sprint(i), "-of", fmt.Sprint(n), "-secs", secs, "-out", out, "-note", note}, p.args...)
	run := func() (string, int) {
		os.Remove(out)
		cmd := exec.Command(p.bin, args...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3")
		var errb strings.Builder
		cmd.Stderr = &limitedWriter{b: &errb}
		err := cmd.Run()
		code := 0
		if err != nil {
			code = -1
			if x, ok := err.(*exec.ExitError); ok {
				code = x.ExitCode()
			}
		}
		return errb.String(), code
	}
	msg, code := run()
	what, _ := os.ReadFile(note)
	if code == 66 {
		again := 0
		for k := 0; k < 5; k++ {
			if _, c := run(); c == 66 {
				again++
			}
		}
		return r, &Viol{Check: "race", Message: "data race in the scenario " + string(what) + ": " + head(msg, 4000), Space: p.name,
			Text: append([]string{p.name}, p.args...), Reproduced: fmt.Sprintf("%d/5 of the shard", again)}
	}
	b, err := os.ReadFile(out)
	if err != nil || json.Unmarshal(b, &r) != nil {
		if code != 0 {
			// A crash of the whole process (fatal error: concurrent map writes...)
			again := 0
			for k := 0; k < 5; k++ {
				if _, c := run(); c == code {
					again++
				}
			}
			if again == 5 && code != 3 && strings.Contains(msg, "fatal error") {
				return r, &Viol{Check: "crash", Message: "the process crashes in the scenario " + string(what) + ": " + head(msg, 3000), Space: p.name, Text: append([]string{p.name}, p.args...), Reproduced: "5/5 of the shard"}
			}
		}
		fmt.Fprintf(os.Stderr, "no result from %s, shard %d: %d %s\n", p.name, i, code, head(msg, 1000))
		r.Complete = false
		r.Uncontrolled = map[string]int64{p.name + ": no result": 1}
		return r, nil
	}
	if f := r.Violation; f != nil {
		js, _ := json.Marshal(f)
		return r, &Viol{Check: "schedule", Message: fmt.Sprintf("threads [%s], schedule %v: %s", strings.Join(f.Threads, " | "), f.Schedule, f.Message), Text: []string{string(js)}, Space: p.name, Reproduced: "5/5"}
	}
	return r, nil
}

// replayConc runs one schedule again (a race: the pass it was found in).
func replayConc(v *Viol) string {
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "urnverif")
		if err != nil {
			return ""
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SCRATCH", dir)
	}
	overlay, why := instrumented()
	if v.Check == "schedule" {
		bin := filepath.Join(scratchDir(), "replay_sched")
		if why != "" || gobuild(bin, "./cmd/sched", "-overlay", overlay) != nil || len(v.Text) == 0 {
			return ""
		}
		out, err := exec.Command(bin, "-replay", v.Text[0]).Output()
		var r concResult
		if err != nil || json.Unmarshal(out, &r) != nil || r.Violation == nil {
			return ""
		}
		return r.Violation.Message
	}
	if len(v.Text) == 0 {
		return ""
	}
	bin := filepath.Join(scratchDir(), "replay_race")
	flags := []string{"-race"}
	if !strings.HasPrefix(v.Text[0], "free") {
		if why != "" {
			return ""
		}
		flags = append(flags, "-overlay", overlay)
	}
	if err := gobuild(bin, "./cmd/sched", flags...); err != nil {
		return ""
	}
	e := newEnv("U14", "quick", 1, 1)
	for i, a := range v.Text {
		if a == "-inputs" {
			large := strings.HasSuffix(v.Text[i+1], "large.json")
			v.Text[i+1] = filepath.Join(scratchDir(), "inputs.json")
			writeJSON(v.Text[i+1], concInputs(large))
		}
	}
	_, got := e.runPass(pass{v.Text[0], bin, v.Text[1:]}, "60")
	if got == nil {
		return ""
	}
	return got.Message
}
