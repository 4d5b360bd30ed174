package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"urnverif/model"
)

// U20: the work done on pumped inputs, on an instrumented copy of the current sources.

func init() {
	props["U20"] = &Prop{Run: runCost, Replay: replayCost}
}

type costFamily struct {
	Mode                int
	Pre, U, Mid, V, Suf []byte
	Hand                bool
	History             bool
	Num                 bool
}

type costFinding struct {
	Family  json.RawMessage `json:"family"`
	Message string          `json:"message"`
}

type costResult struct {
	Families, Runs, Steps, Bytes, Accepted int64
	MaxStepsPerByte, MaxNsPerByte          map[string]float64
	MaxAllocPerByte                        float64
	Suspects                               int64
	Complete                               bool
	Violation                              *costFinding
	Samples                                []string
}

func costFamilies(words int, sufs bool) (fs []costFamily) {
	suffixes := map[model.Mode][]string{
		model.M2141: {"", "\x00", "%"},
		model.M7643: {"", "\x00", "%"},
		model.M8141: {"", "\x00", "?=q#f", "%"},
	}
	if !sufs {
		suffixes = map[model.Mode][]string{model.M2141: {"", "\x00"}, model.M7643: {"", "\x00"}, model.M8141: {"", "\x00"}}
	}
	lits := []string{}
	for _, s := range harvest(false).Strings {
		if len(s) <= 24 {
			lits = append(lits, s)
		}
	}
	for _, m := range allModes {
		for _, ctx := range contexts[m] {
			units := map[string]bool{}
			var order []string
			put := func(u string) {
				if u != "" && !units[u] {
					units[u] = true
					order = append(order, u)
				}
			}
			tokenWords(tokens[m], words, func(u []byte) { put(string(u)) })
			for _, s := range lits {
				put(s)
				put("a" + s)
			}
			for _, u := range order {
				for _, suf := range suffixes[m] {
					fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(ctx), U: []byte(u), Suf: []byte(suf)})
				}
			}
		}
	}
	// Two parts pumped at once
	two := func(m model.Mode, pre, mid string) {
		for _, u := range tokens[m] {
			for _, v := range tokens[m] {
				fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(pre), U: []byte(u), Mid: []byte(mid), V: []byte(v)})
			}
		}
	}
	two(model.M2141, "urn:ab:", "x")
	two(model.M7643, "urn:ietf:params:scim:api:", ":")
	two(model.M7643, "urn:ietf:params:scim:api:n:", "x")
	for _, x := range [][2]string{{"urn:ab:", "?+r"}, {"urn:ab:", "?=q"}, {"urn:ab:", "#"}, {"urn:ab:c?+r", "?=q"}, {"urn:ab:c?+r", "#"}, {"urn:ab:c?=q", "#"}, {"urn:ab:c?+r", "x"}, {"urn:ab:c?=q", "x"}} {
		two(model.M8141, x[0], x[1])
	}
	// One odd character before, and after, all the rest
	for _, x := range []struct {
		m   model.Mode
		pre string
	}{{model.M2141, "urn:ab:"}, {model.M8141, "urn:ab:"}, {model.M8141, "urn:ab:c?+"}, {model.M8141, "urn:ab:c?="}, {model.M8141, "urn:ab:c#"}, {model.M7643, "urn:ietf:params:scim:api:n:"}} {
		for _, u := range []string{"a", "%4B", "%cc", ".", ":", "Z-"} {
			for _, c := range strings.Split("( ) + , - . : = @ ; $ _ ! * ' 0 z A %4b %C0 b~ b& b/ b?", " ") {
				fs = append(fs, costFamily{Mode: int(realMode(x.m)), Pre: []byte(x.pre), U: []byte(u), Suf: []byte(c)})
				fs = append(fs, costFamily{Mode: int(realMode(x.m)), Pre: []byte(x.pre + c), U: []byte(u)})
			}
		}
	}
	for _, u := range []string{"a", "A", "aZ", "é", "İ", "\xff", "%4B", ""} {
		for _, v := range []string{"a", "A", "%4B", "%4b", "%", "%%4", "a%C3B", "é", "\xff\x00", ""} {
			fs = append(fs, costFamily{Mode: 1, U: []byte(u), V: []byte(v), Hand: true})
		}
	}
	for _, m := range allModes {
		for _, s := range seeds {
			fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(s), History: true})
		}
		for _, s := range []string{"", "u", "urn:ab:" + strings.Repeat("%C3", 30), "urn:ab:c?+" + strings.Repeat("r?", 30), "urn:ab:c?=" + strings.Repeat("q?", 30) + "#", "urn:ietf:params:scim:api:n:" + strings.Repeat("%C3", 30)} {
			fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(s), History: true})
		}
	}
	return fs
}

// numberedFamilies: no two of the repeated units are the same.
func numberedFamilies() (fs []costFamily) {
	for _, m := range allModes {
		for _, ctx := range contexts[m] {
			for _, u := range append([]string{"", "a", "A", "%c", "%C", "&k=", ";a=", "/", "-", ",", "%4B", "$"}, tokens[m]...) {
				for _, suf := range []string{"", "\x00"} {
					fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(ctx), U: []byte(u), Suf: []byte(suf), Num: true})
				}
			}
		}
		for _, s := range seeds {
			fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(s), History: true, Num: true})
		}
		for _, x := range [][2]string{{"urn:a", ":x"}, {"urn:A", ":x%4B?+r#f"}, {"urn:ab:", "%C3"}, {"urn:ab:%C3", "?=q"}, {"urn:ab:c?+", ""}, {"urn:ab:c?=", "%4B"}, {"urn:ab:c#", ""}, {"urn:ab:c#", "\x00"}, {"urn:ab", "?:"}, {"u", ""}, {"urn:ietf:params:scim:", ":n"},
			{"urn:ietf:params:scim:api:", ""}, {"urn:ietf:params:scim:api:N", ":x%4B"}, {"urn:ietf:params:scim:api:n:", ""}, {"urn:ietf:params:scim:api:n:%C3", "%"}} {
			fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(x[0]), Suf: []byte(x[1]), History: true, Num: true})
		}
	}
	for _, u := range []string{"a", "A", "é", ""} {
		for _, v := range []string{"a", ":", "%", "%C", "é", ""} {
			fs = append(fs, costFamily{Mode: 1, U: []byte(u), V: []byte(v), Hand: true, Num: true})
		}
	}
	return
}

// hugeFamilies are few, and measured to far larger sizes.
func hugeFamilies() (fs []costFamily) {
	for _, x := range []struct {
		m         model.Mode
		pre, u, s string
	}{
		{model.M2141, "urn:ab:", "a", ""}, {model.M2141, "URN:ab:", "%4Bx", ""}, {model.M2141, "urn:ab:", "a", "\x00"}, {model.M8141, "urn:ab:", "%4B", "?+r"}, {model.M8141, "urn:ab:c?+", "r%4B?", ""}, {model.M8141, "urn:ab:c?=", "q&", ""},
		{model.M8141, "urn:ab:c#", "%4Bf", ""}, {model.M7643, "urn:ietf:params:scim:api:", "Na", ""}, {model.M7643, "urn:ietf:params:scim:api:n:", "%C3:", ""},
	} {
		fs = append(fs, costFamily{Mode: int(realMode(x.m)), Pre: []byte(x.pre), U: []byte(x.u), Suf: []byte(x.s)})
	}
	for _, s := range []string{"urn:ab:x%4B", "urn:ab:c?+r?=q#f", "urn:ietf:params:scim:api:n:x"} {
		for _, m := range allModes {
			fs = append(fs, costFamily{Mode: int(realMode(m)), Pre: []byte(s), History: true, Num: true})
		}
	}
	return append(fs, costFamily{Mode: 1, U: []byte("A"), V: []byte("%4Bx"), Hand: true})
}

func runCost(e *Env) {
	e.stats.Assumptions = []string{
		"work is counted in executed statements and allocated bytes; what the standard library does without allocating is seen as processor time only, with a large margin",
		"growth that sets in beyond the largest sizes, or on inputs that are no pumped family, is not seen",
	}
	cost, plain := filepath.Join(scratchDir(), "cost"), filepath.Join(scratchDir(), "cost_plain")
	overlay, why := instrumented()
	if overlay != "" {
		// Whether the threads could be controlled does not matter here
		if err := gobuild(cost, "./cmd/cost", "-overlay", overlay); err != nil {
			why = err.Error()
			overlay = ""
		}
	}
	if err := gobuild(plain, "./cmd/cost"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if overlay == "" {
		e.stats.Exhaustive = false
		e.stats.Extra["statements_not_counted"] = why
		cost = plain
	}
	writeFamilies := func(name string, fs []costFamily) string {
		path := filepath.Join(scratchDir(), name)
		if err := writeJSON(path, fs); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		return path
	}
	var passes []pass
	if e.Thorough {
		passes = []pass{
			{"statements and bytes, 1 KiB and 16 KiB, units of up to 2 tokens", cost, []string{"-families", writeFamilies("f2", costFamilies(2, true)), "-large", "16384", "-confirm", "131072"}},
			{"statements and bytes, 1 KiB and 256 KiB, units of 1 token", cost, []string{"-families", writeFamilies("f1", costFamilies(1, true)), "-large", "262144", "-confirm", "1048576"}},
			{"processor time, 1 MiB, units of 1 token", plain, []string{"-cpu", "-families", writeFamilies("c1", costFamilies(1, false)), "-small", "65536", "-large", "1048576"}},
			{"statements and bytes, 1 KiB and 256 KiB, numbered units", cost, []string{"-families", writeFamilies("n1", numberedFamilies()), "-large", "262144", "-confirm", "1048576"}},
			{"statements and bytes, 64 KiB and 16 MiB, a few families", cost, []string{"-families", writeFamilies("h1", hugeFamilies()), "-small", "65536", "-large", "16777216", "-confirm", "16777216"}},
			{"statements and bytes, 512 B and 4 KiB, units of up to 3 tokens", cost, []string{"-families", writeFamilies("f3", costFamilies(3, false)), "-small", "512", "-large", "4096"}},
		}
	} else {
		passes = []pass{
			{"statements and bytes, 1 KiB and 64 KiB, units of 1 token", cost, []string{"-families", writeFamilies("f1", costFamilies(1, false)), "-large", "65536", "-confirm", "262144"}},
			{"statements and bytes, 512 B and 4 KiB, units of up to 2 tokens", cost, []string{"-families", writeFamilies("f2", costFamilies(2, true)), "-small", "512", "-large", "4096"}},
			{"statements and bytes, 1 KiB and 32 KiB, numbered units", cost, []string{"-families", writeFamilies("n1", numberedFamilies()), "-large", "32768", "-confirm", "131072"}},
			{"statements and bytes, 64 KiB and 4 MiB, a few families", cost, []string{"-families", writeFamilies("h1", hugeFamilies()), "-small", "65536", "-large", "4194304", "-confirm", "4194304"}},
			{"processor time, 256 KiB, units of 1 token", plain, []string{"-cpu", "-families", writeFamilies("c1", costFamilies(1, false)), "-small", "8192", "-large", "262144"}},
		}
	}
	maxSteps, maxNs, maxAlloc := map[string]float64{}, map[string]float64{}, 0.0
	for i, p := range passes {
		start := time.Now()
		n := 8
		rs := make([]costResult, n)
		vs := make([]*Viol, n)
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rs[k], vs[k] = e.costShard(p, k, n)
			}(k)
		}
		wg.Wait()
		var fams, runs, suspects int64
		complete := true
		for k, r := range rs {
			fams += r.Families
			runs += r.Runs
			suspects += r.Suspects
			complete = complete && r.Complete
			e.stats.Evaluations += r.Runs
			e.stats.Traces += r.Runs
			e.stats.Transitions += r.Steps
			e.stats.States += r.Families
			e.stats.Outcomes["families of accepted inputs"] += r.Accepted
			e.stats.Outcomes["families"] += r.Families
			for x, v := range r.MaxStepsPerByte {
				if v > maxSteps[x] {
					maxSteps[x] = v
				}
			}
			for x, v := range r.MaxNsPerByte {
				if v > maxNs[x] {
					maxNs[x] = v
				}
			}
			if r.MaxAllocPerByte > maxAlloc {
				maxAlloc = r.MaxAllocPerByte
			}
			for _, s := range r.Samples {
				e.sample(p.name, map[string]string{"space": p.name, "family": s})
			}
			if vs[k] != nil {
				e.report(i, vs[k])
			}
		}
		e.stats.Spaces[p.name] = map[string]interface{}{"families": fams, "runs": runs, "measured_again": suspects, "complete": complete, "seconds": int(time.Since(start).Seconds())}
		if !complete {
			e.stats.Exhaustive = false
		}
		if e.stopped() {
			break
		}
	}
	e.stats.Extra["max_statements_per_byte"] = maxSteps
	e.stats.Extra["max_bytes_allocated_per_byte"] = maxAlloc
	e.stats.Extra["max_ns_per_byte"] = maxNs
}

func (e *Env) costShard(p pass, i, n int) (r costResult, v *Viol) {
	out := filepath.Join(scratchDir(), fmt.Sprintf("cost%d.json", i))
	note := filepath.Join(scratchDir(), fmt.Sprintf("note%d", i))
	os.Remove(out)
	secs := fmt.Sprint(int(time.Until(e.Deadline).Seconds()) + 1)
	cmd := exec.Command(p.bin, append([]string{"-shard", fmt.Sprint(i), "-of", fmt.Sprint(n), "-secs", secs, "-out", out, "-note", note}, p.args...)...)
	var errb strings.Builder
	cmd.Stderr = &limitedWriter{b: &errb}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return r, nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := "", time.Now()
	for {
		select {
		case err := <-done:
			b, rerr := os.ReadFile(out)
			if rerr != nil || json.Unmarshal(b, &r) != nil {
				fmt.Fprintf(os.Stderr, "no result from %s, shard %d: %v %s\n", p.name, i, err, head(errb.String(), 1000))
				r.Complete = false
				return r, nil
			}
			if f := r.Violation; f != nil {
				v = &Viol{Check: "cost", Message: f.Message, Text: []string{string(f.Family), strings.Join(p.args, " ")}, Space: p.name, Reproduced: "measured again before the report"}
			}
			return r, v
		case <-time.After(time.Second):
			b, _ := os.ReadFile(note)
			if string(b) != last {
				last, since = string(b), time.Now()
			} else if time.Since(since) > 100*time.Second {
				cmd.Process.Kill()
				<-done
				fmt.Fprintf(os.Stderr, "%s: no end on %s\n", p.name, last)
				r.Complete = false
				return r, nil
			}
		}
	}
}

func replayCost(v *Viol) string {
	if len(v.Text) < 2 {
		return ""
	}
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "urnverif")
		if err != nil {
			return ""
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SCRATCH", dir)
	}
	bin := filepath.Join(scratchDir(), "replay_cost")
	var flags []string
	if !strings.Contains(v.Text[1], "-cpu") {
		if overlay, _ := instrumented(); overlay != "" {
			flags = []string{"-overlay", overlay}
		}
	}
	if gobuild(bin, "./cmd/cost", flags...) != nil {
		return ""
	}
	path := filepath.Join(scratchDir(), "replay_families")
	if os.WriteFile(path, []byte("["+v.Text[0]+"]"), 0o644) != nil {
		return ""
	}
	args := strings.Fields(v.Text[1])
	for i, a := range args {
		if a == "-families" {
			args[i+1] = path
		}
	}
	out, err := exec.Command(bin, args...).Output()
	var r costResult
	if err != nil || json.Unmarshal(out, &r) != nil || r.Violation == nil {
		return ""
	}
	return r.Violation.Message
}
