package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// U22: the parser generated from the grammar against the committed one. The comparison runs in another
// build of this program, which links both (see regen.go).

func init() {
	props["U22"] = &Prop{Run: runRegen, Replay: replayRegen}
}

// regenerate makes a copy of the repository, under another module path, whose parser is generated.
// broken says what the generation itself fails at; unable that it could not be tried.
func regenerate(dir string) (broken, unable string) {
	if _, err := exec.LookPath("ragel"); err != nil {
		return "", "ragel is not installed"
	}
	os.RemoveAll(dir)
	if err := copyTree(repoDir(), dir); err != nil {
		return "", err.Error()
	}
	run := func(d, name string, args ...string) (string, error) {
		cmd := exec.Command(name, args...)
		cmd.Dir = d
		out, err := cmd.CombinedOutput()
		return name + " " + strings.Join(args, " ") + ": " + head(string(out), 1200), err
	}
	// As the makefile does it
	os.Remove(filepath.Join(dir, "machine.go"))
	made := false
	if _, err := exec.LookPath("make"); err == nil {
		if _, err := run(dir, "make", "machine.go"); err == nil {
			if _, err := os.Stat(filepath.Join(dir, "machine.go")); err == nil {
				made = true
			}
		}
	}
	if !made {
		if out, err := run(dir, "ragel", "-Z", "-G1", "-e", "-o", "machine.go", "machine.go.rl"); err != nil {
			return "ragel does not accept the grammar: " + out, ""
		}
		for _, t := range []string{"removecomments", "snake2camel"} {
			if out, err := run(filepath.Join(dir, "tools", t), "go", "build", "-o", filepath.Join(dir, t), "."); err != nil {
				return "", out
			}
			if out, err := run(dir, filepath.Join(dir, t), "machine.go"); err != nil {
				return "the tools fail on the generated parser: " + out, ""
			}
		}
		if out, err := run(dir, "gofmt", "-w", "machine.go"); err != nil {
			return "the generated parser is no Go: " + out, ""
		}
	}
	if out, err := run(dir, "go", "build", "."); err != nil {
		// Either the tools corrupt it, or the package has moved on without its grammar: a matter of names
		// within the package that says nothing about the parser.
		if err := generateWithModels(dir, run); err != nil {
			return "", "the grammar does not fit the package's other files: " + out
		}
		return "the package with the generated parser does not build (it does when the tools work): " + out, ""
	}
	// Under another path; the schema package stays the original one
	gm := filepath.Join(dir, "go.mod")
	b, err := os.ReadFile(gm)
	if err != nil {
		return "", err.Error()
	}
	var ls []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			l = "module regen.example/urn\n\nrequire github.com/leodido/go-urn v0.0.0\n"
		}
		ls = append(ls, l)
	}
	if err := os.WriteFile(gm, []byte(strings.Join(ls, "\n")), 0o644); err != nil {
		return "", err.Error()
	}
	return "", ""
}

// generateWithModels generates the parser with the reference models in place of the tools.
func generateWithModels(dir string, run func(d, name string, args ...string) (string, error)) error {
	if _, err := run(dir, "ragel", "-Z", "-G1", "-e", "-o", "machine.go", "machine.go.rl"); err != nil {
		return err
	}
	b, err := os.ReadFile(filepath.Join(dir, "machine.go"))
	if err != nil {
		return err
	}
	var kept []byte
	for _, l := range toolLines(b) {
		if !bytes.HasPrefix(toolTrim(l), []byte("//line")) {
			kept = append(kept, l...)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "machine.go"), toolSnake(kept), 0o644); err != nil {
		return err
	}
	_, err = run(dir, "go", "build", ".")
	return err
}

func copyTree(from, to string) error {
	return filepath.Walk(from, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, path)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// buildRegen builds this program with both parsers.
func buildRegen(bin string) (broken, unable string) {
	dir := filepath.Join(scratchDir(), "regen")
	if broken, unable = regenerate(dir); broken != "" || unable != "" {
		return
	}
	mod := filepath.Join(scratchDir(), "regen.mod")
	b, err := os.ReadFile(filepath.Join(verifDir(), "mc", "go.mod"))
	if err != nil {
		return "", err.Error()
	}
	txt := string(b) + "\nrequire regen.example/urn v0.0.0\n\nreplace regen.example/urn => " + dir + "\n"
	if err := os.WriteFile(mod, []byte(txt), 0o644); err != nil {
		return "", err.Error()
	}
	if sum, err := os.ReadFile(filepath.Join(verifDir(), "mc", "go.sum")); err == nil {
		os.WriteFile(filepath.Join(scratchDir(), "regen.sum"), sum, 0o644)
	}
	if err := gobuild(bin, ".", "-tags", "regen", "-modfile", mod, "-mod=mod"); err != nil {
		return "", err.Error()
	}
	return "", ""
}

func runRegen(e *Env) {
	bin := filepath.Join(scratchDir(), "mc_regen")
	broken, unable := buildRegen(bin)
	if broken != "" {
		e.report(0, &Viol{Check: "generation", Message: broken})
		return
	}
	if unable != "" {
		fmt.Fprintln(os.Stderr, "U22:", unable)
		e.stats.Exhaustive = false
		e.stats.Extra["not_explored"] = unable
		return
	}
	a, _ := os.ReadFile(filepath.Join(scratchDir(), "regen", "machine.go"))
	b, _ := os.ReadFile(filepath.Join(repoDir(), "machine.go"))
	same := string(a) == string(b)
	out := filepath.Join(scratchDir(), "out0.json")
	os.Remove(out)
	cmd := exec.Command(bin, "child", "U22")
	cmd.Env = append(os.Environ(), "VERIF_REGEN=1")
	cmd.Stderr = os.Stderr
	err := cmd.Run()
	var o Out
	data, rerr := os.ReadFile(out)
	if err != nil || rerr != nil || json.Unmarshal(data, &o) != nil {
		os.Exit(4) // the post mortem knows
	}
	os.Remove(out)
	e.stats, e.modes = o.Stats, o.Modes
	for _, m := range o.Modes {
		e.seen[m] = o.Seen[int(m)]
	}
	e.stats.Extra["generated_source_identical"] = same
	if o.Viol != nil {
		e.report(0, o.Viol)
	}
}

func replayRegen(v *Viol) string {
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "urnverif")
		if err != nil {
			return ""
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SCRATCH", dir)
	}
	bin := filepath.Join(scratchDir(), "mc_regen")
	broken, unable := buildRegen(bin)
	if broken != "" {
		return broken
	}
	if unable != "" || v.Check == "generation" {
		return ""
	}
	js, _ := json.Marshal(v)
	f := filepath.Join(scratchDir(), "viol.json")
	if os.WriteFile(f, js, 0o644) != nil {
		return ""
	}
	out, err := exec.Command(bin, "replay", f).CombinedOutput()
	if err != nil && strings.Contains(string(out), "VIOLATION") {
		return head(string(out), 1500)
	}
	return ""
}
