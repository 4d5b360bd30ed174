package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// U18 and U19: the tools that post-process the generated parser. Their main function is called
// on every content of bounded spaces; what they do to files and when they fail is tried on
// the programs themselves.

func init() {
	props["U18"] = &Prop{Run: func(e *Env) { runTool(e, "removecomments") }, Replay: func(v *Viol) string { return replayTool("removecomments", v) }}
	props["U19"] = &Prop{Run: func(e *Env) { runTool(e, "snake2camel") }, Replay: func(v *Viol) string { return replayTool("snake2camel", v) }}
}

type toolSpace struct {
	Name   string
	Tokens []string `json:",omitempty"`
	Pre    string   `json:",omitempty"`
	Suf    string   `json:",omitempty"`
	Depth  int
	Texts  [][]byte `json:",omitempty"`
}

type toolJob struct {
	Tool           string
	Spaces         []toolSpace
	Shard, Of      int
	Dir, Out, Note string
	Secs           int
	One            []byte
	HasOne         bool
}

type toolResult struct {
	Runs, Changed     int64
	BySpace, Outcomes map[string]int64
	Complete          bool
	Content           []byte
	Message           string
	Samples           []string
}

func toolSpaces(tool string, thorough bool) (ss []toolSpace) {
	d := 0
	if thorough {
		d = 1
	}
	sources := toolSpace{Name: "source files of the repository, and their prefixes"}
	files, _ := filepath.Glob(filepath.Join(repoDir(), "*"))
	for _, pat := range []string{"tools/*/*", "scim/schema/*"} {
		fs, _ := filepath.Glob(filepath.Join(repoDir(), pat))
		files = append(files, fs...)
	}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil || len(b) > 1<<18 {
			continue
		}
		sources.Texts = append(sources.Texts, b)
		for i := 0; i < len(b) && i < 3000; i += 97 {
			sources.Texts = append(sources.Texts, b[:i], b[i:len(b)/2+i/2])
		}
	}
	long := toolSpace{Name: "pumped contents"}
	pump := func(units, ends []string, sizes []int) {
		for _, u := range units {
			for _, x := range ends {
				for _, n := range sizes {
					long.Texts = append(long.Texts, []byte(x+strings.Repeat(u, n)), []byte(strings.Repeat(u, n)+x), []byte(x+strings.Repeat(u, n)+x))
				}
			}
		}
	}
	switch tool {
	case "removecomments":
		ss = append(ss,
			toolSpace{Name: "token words", Tokens: []string{"//line", " ", "\n", "x", "\t", "\r\n", "//", "\r", "line", "\f"}, Depth: 6 + d},
			toolSpace{Name: "line words", Tokens: []string{"//line a:1\n", "x\n", "\n", " \t//line\n", "  \n", "x //line\n", "//lin\n", "// line\n", "//line b\r\n", "\r\n", "//linex\n", "/*\n", "//LINE\n"}, Depth: 5 + d},
			toolSpace{Name: "line words, without the last newline", Tokens: []string{"//line a:1\n", "x\n", "\n", " \t//line\n", "y //line\n", "\r\n"}, Depth: 4 + d, Suf: "//line"},
			toolSpace{Name: "line words, ending with text", Tokens: []string{"//line a:1\n", "x\n", "\n", " \t//line\n", "y //line\n", "\r\n"}, Depth: 4 + d, Suf: "z"},
			toolSpace{Name: "byte words", Tokens: []string{"/", "l", "i", "n", "e", "\n", " "}, Depth: 6 + d},
			toolSpace{Name: "byte words after slashes", Tokens: []string{"/", "l", "i", "n", "e", "\n", " ", "\x00", "\xff", "é"}, Pre: "//", Depth: 4 + d},
			toolSpace{Name: "every byte before, within and after", Texts: everyByte("%s//line x\ny\n", "x%s//line y\nz", "a\n//line %s\nb\n", "a\n//line x%sb\nc", "//lin%s x\n", "%s", "a%sb\n", "/%s/line\nx")})
		pump([]string{"//line x\n", "x\n", "\n", " ", " \n", "//", "é\n", "//line \r\n\n"}, []string{"", "//line", "//line\n", "x", "\n"}, []int{2, 3, 100, 5000})
	default:
		ss = append(ss,
			toolSpace{Name: "token words", Tokens: []string{"a", "_", "B", "0", "\n", " ", "z9", "\xff", "é", "\r\n"}, Depth: 6 + d},
			toolSpace{Name: "byte words", Tokens: []string{"a", "_", "B", "0", "\n"}, Depth: 7 + d},
			toolSpace{Name: "identifier words", Tokens: []string{"en_", "st", "_case_", "1", "_test_eof", "X_", " ", "\n", "a_b", "__", "goto _"}, Depth: 4 + d},
			toolSpace{Name: "every byte around an underscore", Texts: everyByte("a%s_b", "a_%sb", "a_%s", "%s_b", "%s_a_b", "a%s0_b", "a9_%s_c", "a_b%sc_d", "_%s_x", "a1%s2_b")})
		pump([]string{"a_b ", "a_", "_", "a", "a0_b\n", "é_a", "A_b", "0_"}, []string{"", "a", "_b", "\n"}, []int{2, 3, 60, 400})
	}
	// Long lines and large files, around the usual buffer sizes
	big := toolSpace{Name: "long lines and large files"}
	add := func(parts ...string) { big.Texts = append(big.Texts, []byte(strings.Join(parts, ""))) }
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 8192, 32768, 65534, 65535, 65536, 65537, 131072, 1<<20 + 1} {
		b, sp := strings.Repeat("b", n), strings.Repeat(" ", n)
		if tool == "removecomments" {
			for _, end := range []string{"\r\n", " \n", "\t", "\r"} {
				add("//line a", end, b, end, "//line ", b, end, "x")
				add("//line a\n", sp, "x", sp, end)
			}
			add("a\n", b, "\nc\n")
			add("a\n", b)
			add("//line x\n", b, "\n //line y\nz")
			add("x\n//line ", b, "\nc\n//line z")
			add(sp, "//line\nx\n")
			add(sp, "/line\nx //line\n\n", sp)
			add(strings.Repeat("x\n", n/2), "//line a\n", strings.Repeat("y\n", n/2))
			add(strings.Repeat("x\n", n/2), "//lin")
			add(strings.Repeat("//line a\n", n/8), "x")
			continue
		}
		add("a\n", b, "\nc\n")
		for _, end := range []string{"\r\n", " \n", "\t", "_\n", "\r"} {
			add("a_b", b, end, "x")
			add("a_b", sp, end)
			add(b, "_c", end)
		}
		add(b, "_c")
		add("a_", b)
		add(b, "_", b, "\n")
		add(sp, "a_b\n", sp, "\n")
		add("a", strings.Repeat("0", n), "_b")
		add(strings.Repeat("A", n), "_b")
		add(strings.Repeat("x\n", n/2), "a_b\n", strings.Repeat("y\n", n/2))
		if n <= 65537 {
			add(strings.Repeat("a_b\n", n/4))
		}
	}
	return append(ss, sources, long, big)
}

func everyByte(formats ...string) (ts [][]byte) {
	for _, f := range formats {
		for b := 0; b < 256; b++ {
			if strings.HasPrefix(f, "%s//line") || strings.HasPrefix(f, "x%s//line") {
				// What else than blanks and line breaks is white space is left open
				if b == '\v' || b == 0x85 || b == 0xa0 {
					continue
				}
			}
			ts = append(ts, []byte(fmt.Sprintf(f, string([]byte{byte(b)}))))
		}
	}
	return ts
}

func buildTool(tool, out string, driver bool) error {
	dir := filepath.Join(repoDir(), "tools", tool)
	args := []string{"build"}
	if driver {
		overlay := out + ".overlay.json"
		if err := writeJSON(overlay, map[string]interface{}{"Replace": map[string]string{filepath.Join(dir, "zz_urnverif_driver.go"): filepath.Join(verifDir(), "mc", "drivers", "tool_driver.go.txt")}}); err != nil {
			return err
		}
		args = append(args, "-overlay", overlay)
	}
	cmd := exec.Command("go", append(args, "-o", out, ".")...)
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building %s: %v: %s", tool, err, head(string(b), 1500))
	}
	return nil
}

func fastDir() string {
	if d, err := os.MkdirTemp("/dev/shm", "urnverif"); err == nil {
		return d
	}
	d, err := os.MkdirTemp("", "urnverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	return d
}

func runTool(e *Env, tool string) {
	e.stats.Assumptions = []string{
		"the main function of the tool is called in the process that enumerates; what it does wrong counts only if the tool itself, in its own process, does the same",
	}
	plain, driver := filepath.Join(scratchDir(), tool), filepath.Join(scratchDir(), tool+"_driver")
	if err := buildTool(tool, plain, false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	dir := fastDir()
	defer os.RemoveAll(dir)
	if v := toolFiles(e, tool, plain, dir); v != nil {
		e.report(0, v)
		return
	}
	if v := toolLarge(e, tool, plain, dir); v != nil {
		e.report(0, v)
		return
	}
	why := ""
	if err := buildTool(tool, driver, true); err != nil {
		why = err.Error()
	}
	spaces := toolSpaces(tool, e.Thorough)
	if why == "" {
		n := 8
		rs := make([]toolResult, n)
		vs := make([]*Viol, n)
		whys := make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				rs[i], vs[i], whys[i] = e.toolShard(tool, plain, driver, dir, spaces, i, n)
			}(i)
		}
		wg.Wait()
		by := map[string]int64{}
		for i, r := range rs {
			e.stats.Evaluations += r.Runs
			e.stats.Traces += r.Runs
			e.stats.Transitions += r.Runs + r.Changed
			e.stats.States += r.Runs
			for k, x := range r.BySpace {
				by[k] += x
			}
			for k, x := range r.Outcomes {
				e.stats.Outcomes[k] += x
			}
			for _, s := range r.Samples {
				e.sample("content", s)
			}
			if !r.Complete {
				e.stats.Exhaustive = false
			}
			if whys[i] != "" {
				why = whys[i]
			}
			if vs[i] != nil {
				e.report(1, vs[i])
			}
		}
		for k, x := range by {
			e.stats.Spaces[k] = map[string]int64{"contents": x}
		}
	}
	if why == "" || e.stopped() {
		return
	}
	// The main function cannot be called again and again: the program itself, on the small contents
	e.stats.Exhaustive = false
	e.stats.Extra["not_in_process"] = why
	bin, _ := json.Marshal(why)
	fmt.Fprintln(os.Stderr, "the driver does not work:", string(bin))
	var list [][]byte
	for _, s := range spaces {
		if s.Texts != nil {
			for _, t := range s.Texts {
				if len(t) < 20000 {
					list = append(list, t)
				}
			}
			continue
		}
		tokenWords(s.Tokens, 3, func(w []byte) { list = append(list, []byte(s.Pre+string(w)+s.Suf)) })
	}
	var mu sync.Mutex
	e.parallel(len(list), func(i int) {
		if e.stopped() || time.Now().After(e.Deadline) {
			return
		}
		msg := toolProgram(tool, plain, dir, list[i])
		mu.Lock()
		e.stats.Evaluations++
		e.stats.Traces++
		mu.Unlock()
		if msg != "" && toolProgram(tool, plain, dir, list[i]) != "" {
			e.report(2, &Viol{Check: "content", Input: list[i], Message: msg, Reproduced: "2/2"})
		}
	})
}

func (e *Env) toolShard(tool, plain, driver, dir string, spaces []toolSpace, i, n int) (r toolResult, v *Viol, why string) {
	base := filepath.Join(dir, fmt.Sprintf("shard%d", i))
	job := toolJob{Tool: tool, Spaces: spaces, Shard: i, Of: n, Dir: dir, Out: base + ".out", Note: base + ".note", Secs: int(time.Until(e.Deadline).Seconds())}
	if err := writeJSON(base+".job", job); err != nil {
		return r, nil, err.Error()
	}
	cmd := exec.Command(driver)
	cmd.Env = append(os.Environ(), "URNVERIF_JOB="+base+".job")
	var errb strings.Builder
	cmd.Stderr = &limitedWriter{b: &errb}
	if err := cmd.Start(); err != nil {
		return r, nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var exit error
	readNote := func() ([]byte, bool) {
		b, err := os.ReadFile(job.Note)
		if err != nil || len(b) < 12 {
			return nil, false
		}
		k, err := strconv.Atoi(string(b[:12]))
		if err != nil || 12+k > len(b) {
			return nil, false
		}
		return b[12 : 12+k], true
	}
	var last string
	since := time.Now()
	killed := false
loop:
	for {
		select {
		case exit = <-done:
			break loop
		case <-time.After(time.Second):
			c, _ := readNote()
			if string(c) != last {
				last, since = string(c), time.Now()
			} else if time.Since(since) > 60*time.Second {
				killed = true
				cmd.Process.Kill()
				exit = <-done
				break loop
			}
		}
	}
	b, err := os.ReadFile(job.Out)
	if err != nil || json.Unmarshal(b, &r) != nil {
		r.Complete = false
		c, ok := readNote()
		if !ok {
			return r, nil, fmt.Sprintf("%v %s", exit, head(errb.String(), 500))
		}
		r.Content = c
		r.Message = fmt.Sprintf("the tool exits (%v, killed after a minute: %v) %s", exit, killed, head(errb.String(), 300))
	}
	if r.Message == "" {
		return r, nil, ""
	}
	// In its own process, too?
	bad, msg := 0, ""
	for k := 0; k < 5; k++ {
		if m := toolProgram(tool, plain, dir, r.Content); m != "" {
			bad++
			msg = m
		}
		if killed && k == 1 {
			break
		}
	}
	if bad >= 5 || killed && bad == 2 {
		return r, &Viol{Check: "content", Input: r.Content, Message: msg, Reproduced: fmt.Sprintf("%d times with the program itself", bad)}, ""
	}
	r.Complete = false
	return r, nil, r.Message + ", not so the program itself on " + quote(r.Content)
}

// toolProgram runs the program itself, twice, on one content.
func toolProgram(tool, bin, dir string, content []byte) string {
	d, err := os.MkdirTemp(dir, "p")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(d)
	f := filepath.Join(d, "f")
	if err := os.WriteFile(f, content, 0o644); err != nil {
		return ""
	}
	var outs [][]byte
	for k := 0; k < 2; k++ {
		o, code := runFor(40*time.Second, bin, f)
		if code != 0 {
			return fmt.Sprintf("run %d on a regular file: exit %d (-9: no end after 40 s): %s", k+1, code, head(o, 500))
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return "the file is gone: " + err.Error()
		}
		outs = append(outs, b)
	}
	judge := judgeComments
	if tool == "snake2camel" {
		judge = judgeSnake
	}
	if msg := judge(content, outs[0]); msg != "" {
		return msg
	}
	if string(outs[0]) != string(outs[1]) {
		return fmt.Sprintf("the first time it leaves %q, the second time %q", clip(string(outs[0])), clip(string(outs[1])))
	}
	return ""
}

func runFor(limit time.Duration, bin string, args ...string) (string, int) {
	return runAs(limit, nil, bin, args...)
}

func runAs(limit time.Duration, cred *syscall.Credential, bin string, args ...string) (string, int) {
	cmd := exec.Command(bin, args...)
	if cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	}
	var errb strings.Builder
	cmd.Stderr = &limitedWriter{b: &errb}
	cmd.Dir = filepath.Dir(bin)
	if err := cmd.Start(); err != nil {
		return err.Error(), -2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return errb.String(), 0
		}
		if x, ok := err.(*exec.ExitError); ok {
			return errb.String(), x.ExitCode()
		}
		return err.Error(), -1
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return errb.String(), -9
	}
}

// toolFiles: permissions, failures and arguments, on the program itself.
func toolFiles(e *Env, tool, bin, dir string) *Viol {
	runs := int64(0)
	d := filepath.Join(dir, "files")
	os.MkdirAll(d, 0o777)
	os.Chmod(d, 0o777)
	os.Chmod(dir, 0o755)
	bad := func(format string, args ...interface{}) *Viol {
		return &Viol{Check: "files", Message: fmt.Sprintf(format, args...)}
	}
	contents := []string{"", "x\n", "//line a\nb_c\n", "a_b", "//line", "é_a a_b\r\n//line\r\n"}
	f := filepath.Join(d, "f")
	for _, mode := range []os.FileMode{0o600, 0o644, 0o664, 0o755, 0o777, 0o640, 0o700} {
		for _, c := range contents {
			for _, through := range []string{"absolute", "relative", "dashes"} {
				os.Remove(f)
				os.WriteFile(f, []byte(c), 0o600)
				os.Chmod(f, mode)
				arg := f
				if through == "relative" {
					arg, _ = filepath.Rel(filepath.Dir(bin), f)
				}
				if through == "dashes" {
					arg = filepath.Join(d, "a b--c")
					os.Rename(f, arg)
				}
				out, code := runFor(40*time.Second, bin, arg)
				runs++
				if code != 0 {
					return bad("on a regular file of mode %v with %q (%s path): exit %d: %s", mode, c, through, code, out)
				}
				if through == "dashes" {
					os.Rename(arg, f)
				}
				st, err := os.Stat(f)
				if err != nil {
					return bad("the file is gone: %v", err)
				}
				if st.Mode() != mode {
					return bad("a file of mode %v becomes %v (content %q)", mode, st.Mode(), c)
				}
				ents, _ := os.ReadDir(d)
				if len(ents) != 1 {
					return bad("it leaves other files: %v", ents)
				}
			}
		}
	}
	// Every permission, whatever new files get
	if sh, err := exec.LookPath("sh"); err == nil {
		for mode := os.FileMode(0); mode < 0o1000; mode++ {
			for _, umask := range []string{"0", "022", "077", "0777"} {
				c, want := "x //line\n", "x //line\n"
				if mode&1 == 0 {
					c, want = "//line a\nbC\n", "//line a\nbC\n"
					if tool == "removecomments" {
						want = "bC\n"
					}
				}
				os.Remove(f)
				os.WriteFile(f, []byte(c), 0o600)
				os.Chmod(f, mode)
				may := false // read and write it
				if h, err := os.OpenFile(f, os.O_RDWR, 0); err == nil {
					h.Close()
					may = true
				}
				out, code := runFor(40*time.Second, sh, "-c", `umask "$1" && exec "$2" "$3"`, "sh", umask, bin, f)
				runs++
				st, err := os.Stat(f)
				if err != nil {
					return bad("the file is gone: %v", err)
				}
				if st.Mode() != mode {
					return bad("a file of mode %v becomes %v, with umask %s", mode, st.Mode(), umask)
				}
				got, _ := os.ReadFile(f)
				if code == 0 && string(got) != want {
					return bad("a file of mode %v with umask %s: exit 0, and from %q it gives %q", mode, umask, c, got)
				}
				if code != 0 && may {
					return bad("a file of mode %v with umask %s: exit %d: %s", mode, umask, code, out)
				}
			}
		}
	}
	os.Remove(f)
	e.outcome("permissions kept", runs)
	// Failures
	type failure struct {
		name string
		args []string
	}
	two := filepath.Join(d, "g")
	fails := []failure{{"no argument", nil}, {"a missing file", []string{filepath.Join(d, "missing")}}, {"a missing directory", []string{filepath.Join(d, "no", "f")}}, {"a directory", []string{d}},
		{"two arguments", []string{f, two}}, {"three arguments", []string{f, two, f}}, {"an empty path", []string{""}}, {"a file taken for a directory", []string{filepath.Join(f, "x")}}}
	for _, x := range fails {
		os.WriteFile(f, []byte("a_b\n//line\n"), 0o644)
		os.WriteFile(two, []byte("a_b\n//line\n"), 0o644)
		out, code := runFor(40*time.Second, bin, x.args...)
		runs++
		if code == 0 || code < 0 {
			return bad("%s: exit %d: %s", x.name, code, out)
		}
		if strings.TrimSpace(out) == "" {
			return bad("%s: exit %d, and nothing on standard error", x.name, code)
		}
		a, _ := os.ReadFile(f)
		b, _ := os.ReadFile(two)
		if string(a) != "a_b\n//line\n" || string(b) != string(a) {
			return bad("%s: it fails and changes the files", x.name)
		}
		if ents, _ := os.ReadDir(d); len(ents) != 2 {
			return bad("%s: it leaves other files: %v", x.name, ents)
		}
		e.outcome("failure reported: "+x.name, 1)
	}
	// Files that cannot be read, or not be written, by a user without privileges
	if os.Getuid() == 0 {
		nb := filepath.Join(dir, "prog")
		data, err := os.ReadFile(bin)
		if err == nil && os.WriteFile(nb, data, 0o755) == nil && os.Chmod(nb, 0o755) == nil {
			cred := &syscall.Credential{Uid: 65534, Gid: 65534}
			for _, mode := range []os.FileMode{0o000, 0o222, 0o444, 0o200, 0o400} {
				for _, c := range []string{"a_b\n//line\n", "a_b\nx", "//line"} {
					os.Remove(f)
					os.WriteFile(f, []byte(c), 0o644)
					os.Chmod(f, mode)
					os.Chown(f, 65534, 65534)
					out, code := runAs(40*time.Second, cred, nb, f)
					if code == -2 || code == 126 {
						e.outcome("unprivileged user not available", 1)
						continue
					}
					runs++
					got, _ := os.ReadFile(f)
					judge := judgeComments
					if tool == "snake2camel" {
						judge = judgeSnake
					}
					if code == 0 && judge([]byte(c), got) == "" {
						continue // it did not fail
					}
					if code == 0 || code < 0 || strings.TrimSpace(out) == "" {
						return bad("a file of mode %v of the user that runs it: exit %d, standard error %q, content %q then %q", mode, code, out, c, got)
					}
					if string(got) != c {
						return bad("a file of mode %v: it fails and changes the file from %q to %q", mode, c, got)
					}
					e.outcome("failure reported: file modes", 1)
				}
			}
		}
	}
	// Every write that stops early: the file system has room for so many bytes, and no more
	self, _ := os.Executable()
	faults, n := []string{"a_b\n//line a\nc_d\n", "//line\n", "x\n", "é_a b_c d\n \n//line\n", strings.Repeat("a_b c\n//line x\n", 700)}, 0
	for _, c := range faults {
		limits := map[int]bool{}
		for k := 0; k <= len(c)+1; k++ {
			if len(c) < 100 || k < 3 || k > len(c)-3 || k%4096 < 2 || k%4096 > 4094 || k%997 == 0 {
				limits[k] = true
			}
		}
		os.WriteFile(f, []byte(c), 0o644)
		if _, code := runFor(40*time.Second, bin, f); code == 0 {
			b, _ := os.ReadFile(f)
			for k := len(b) - 2; k <= len(b)+1; k++ {
				if k >= 0 {
					limits[k] = true
				}
			}
		}
		for k := range limits {
			os.WriteFile(f, []byte(c), 0o644)
			out, code := runFor(40*time.Second, self, "limited", strconv.Itoa(k), bin, f)
			runs++
			if code == 125 || code == -2 {
				continue
			}
			got, _ := os.ReadFile(f)
			judge := judgeComments
			if tool == "snake2camel" {
				judge = judgeSnake
			}
			if code == 0 {
				if msg := judge([]byte(c), got); msg != "" {
					return bad("with room for %d bytes only, on %q: it says that all went well, but leaves %q", k, clip(c), clip(string(got)))
				}
				continue
			}
			if code == -9 {
				return bad("with room for %d bytes only, on %q: no end after 40 s", k, clip(c))
			}
			n++
			if code > 0 && strings.TrimSpace(out) == "" {
				return bad("with room for %d bytes only, on %q: exit %d, and nothing on standard error", k, clip(c), code)
			}
		}
	}
	e.outcome("failure reported: no room", int64(n))
	os.RemoveAll(d)
	e.stats.Traces += runs
	e.stats.Evaluations += runs
	e.stats.Spaces["files, arguments and failures"] = map[string]int64{"runs": runs}
	return nil
}

// toolLarge: large files, of sizes around the integers of the tool's sources, too, on the program itself.
func toolLarge(e *Env, tool, bin, dir string) *Viol {
	sizes := []int{2<<20 + 3, 4<<20 + 1}
	for _, v := range harvestIn(false, "tools/"+tool+"/*.go").Ints {
		if v > 1000 {
			sizes = append(sizes, v-1, v, v+1, 2*v+1)
		}
	}
	if len(sizes) > 40 {
		sizes = sizes[:40]
	}
	var mu sync.Mutex
	var v *Viol
	e.parallel(len(sizes), func(i int) {
		n := sizes[i]
		for _, unit := range []string{"x y\n", "x y\n\n//line z\nfoo_bar\n"} {
			if tool == "snake2camel" && n > 200000 && unit != "x y\n" {
				continue // it takes quadratic time in the number of changes, by its design
			}
			fill := strings.Repeat(unit, n/len(unit)+1)[:n]
			for _, c := range []string{fill, fill + "//line a\nc_d\n", fill + "\n//line a\nc_d", fill[:n-2] + "//line e_f"} {
				if msg := toolProgram(tool, bin, dir, []byte(c)); msg != "" && toolProgram(tool, bin, dir, []byte(c)) != "" {
					mu.Lock()
					v = &Viol{Check: "content", Input: []byte(c), Message: head(msg, 2000), Reproduced: "2/2"}
					mu.Unlock()
					return
				}
				mu.Lock()
				e.stats.Evaluations++
				e.stats.Traces++
				mu.Unlock()
			}
		}
	})
	e.stats.Spaces["large files"] = map[string]int{"sizes": len(sizes), "files": 8 * len(sizes)}
	return v
}

// limited runs a program whose files cannot grow beyond n bytes.
func limited(n string, args []string) int {
	k, err := strconv.ParseUint(n, 10, 32)
	if err != nil || len(args) == 0 {
		return 125
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: k, Max: k}) != nil {
		return 125
	}
	syscall.Exec(args[0], args, os.Environ())
	return 125
}

func replayTool(tool string, v *Viol) string {
	if os.Getenv("VERIF_SCRATCH") == "" {
		dir, err := os.MkdirTemp("", "urnverif")
		if err != nil {
			return ""
		}
		defer os.RemoveAll(dir)
		os.Setenv("VERIF_SCRATCH", dir)
	}
	bin := filepath.Join(scratchDir(), tool+"_replay")
	if buildTool(tool, bin, false) != nil {
		return ""
	}
	dir := fastDir()
	defer os.RemoveAll(dir)
	if v.Check == "files" {
		if x := toolFiles(newEnv("U18", "quick", 1, 1), tool, bin, dir); x != nil {
			return x.Message
		}
		return ""
	}
	return toolProgram(tool, bin, dir, v.Input)
}
