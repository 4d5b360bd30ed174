package model

import "sort"

// Table is the explicit state space of a mode: every state reachable under all
// 256 bytes, with its transitions.
type Table struct {
	Mode   Mode
	States []State
	Access []string      // a shortest word reaching each state
	Next   [][256]int16  // -1: rejected
	Rej    [][256]Reject // when Next is -1
	Eof    []Reject      // Cat == OK: accepted
	// Classes are the bytes with identical transitions in every state.
	Classes [][]byte
	ClassOf [256]int
}

// Reject is a rejection: the blamed part and the offset from the current position.
type Reject struct {
	Cat   Cat
	Delta int8
}

// order is the order in which bytes are tried, so that access words look nice.
var order = func() []byte {
	var o []byte
	seen := [256]bool{}
	add := func(b byte) {
		if !seen[b] {
			seen[b] = true
			o = append(o, b)
		}
	}
	for _, b := range []byte("abcdefghijklmnopqrstuvwxyzA0:%-?+=#/") {
		add(b)
	}
	for i := 32; i < 127; i++ {
		add(byte(i))
	}
	for i := 0; i < 256; i++ {
		add(byte(i))
	}
	return o
}()

// Build explores the whole state space of a mode.
func Build(m Mode) *Table {
	t := &Table{Mode: m}
	idx := map[State]int{}
	add := func(s State, acc string) int {
		if i, ok := idx[s]; ok {
			return i
		}
		i := len(t.States)
		idx[s] = i
		t.States = append(t.States, s)
		t.Access = append(t.Access, acc)
		t.Next = append(t.Next, [256]int16{})
		t.Rej = append(t.Rej, [256]Reject{})
		e := s.EOF()
		t.Eof = append(t.Eof, Reject{e.Cat, int8(e.Delta)})
		return i
	}
	add(Start(m), "")
	for i := 0; i < len(t.States); i++ {
		for _, b := range order {
			r := t.States[i].Step(b)
			if r.Cat != OK {
				t.Next[i][b] = -1
				t.Rej[i][b] = Reject{r.Cat, int8(r.Delta)}
				continue
			}
			// string(rune) would encode as UTF-8
			j := add(r.Next, t.Access[i]+string([]byte{b}))
			t.Next[i][b] = int16(j)
		}
	}
	type sig struct {
		n int16
		r Reject
	}
	for _, b := range order {
		found := -1
	search:
		for ci, c := range t.Classes {
			o := c[0]
			for i := range t.States {
				if t.Next[i][b] != t.Next[i][o] || t.Rej[i][b] != t.Rej[i][o] {
					continue search
				}
			}
			found = ci
			break
		}
		if found < 0 {
			found = len(t.Classes)
			t.Classes = append(t.Classes, nil)
		}
		t.Classes[found] = append(t.Classes[found], b)
		t.ClassOf[b] = found
	}
	return t
}

// Outcome of a whole input.
type Outcome struct {
	Cat Cat // OK: accepted
	Col int
}

// Run runs a whole input; visit, if not nil, sees every transition (state, byte).
func (t *Table) Run(in []byte) Outcome { return t.RunFrom(0, 0, in) }

// RunFrom runs an input from a state, at an offset.
func (t *Table) RunFrom(s int, off int, in []byte) Outcome {
	for i, b := range in {
		n := t.Next[s][b]
		if n < 0 {
			r := t.Rej[s][b]
			return Outcome{r.Cat, off + i + int(r.Delta)}
		}
		s = int(n)
	}
	e := t.Eof[s]
	if e.Cat == OK {
		return Outcome{}
	}
	return Outcome{e.Cat, off + len(in) + int(e.Delta)}
}

// RunVisit is Run marking the visited transitions (a set of state*256+byte).
func (t *Table) RunVisit(in []byte, seen []uint64) Outcome {
	s := 0
	for i, b := range in {
		k := s<<8 | int(b)
		seen[k>>6] |= 1 << (k & 63)
		n := t.Next[s][b]
		if n < 0 {
			r := t.Rej[s][b]
			return Outcome{r.Cat, i + int(r.Delta)}
		}
		s = int(n)
	}
	e := t.Eof[s]
	if e.Cat == OK {
		return Outcome{}
	}
	return Outcome{e.Cat, len(in) + int(e.Delta)}
}

// Characterize returns words that tell apart every two states that differ in
// the outcome of some word (and the number of classes of equivalent states).
func (t *Table) Characterize() (w []string, blocks int) {
	n := len(t.States)
	reps := make([]byte, len(t.Classes))
	for i, c := range t.Classes {
		reps[i] = c[0]
	}
	set := map[string]bool{}
	block := make([]int, n)
	addWord := func(word string) bool {
		// refine the partition by the outcome of word
		type key struct {
			b int
			o Outcome
		}
		ids := map[key]int{}
		nb := make([]int, n)
		for i := 0; i < n; i++ {
			k := key{block[i], t.RunFrom(i, 0, []byte(word))}
			id, ok := ids[k]
			if !ok {
				id = len(ids)
				ids[k] = id
			}
			nb[i] = id
		}
		if len(ids) == blocks {
			return false
		}
		block, blocks = nb, len(ids)
		set[word] = true
		return true
	}
	blocks = 1
	addWord("")
	for _, r := range reps {
		addWord(string([]byte{r}))
	}
	// words that split the current partition through one transition
	for changed := true; changed; {
		changed = false
		words := make([]string, 0, len(set))
		for x := range set {
			words = append(words, x)
		}
		sort.Slice(words, func(i, j int) bool {
			if len(words[i]) != len(words[j]) {
				return len(words[i]) < len(words[j])
			}
			return words[i] < words[j]
		})
		for _, x := range words {
			for _, r := range reps {
				if addWord(string([]byte{r}) + x) {
					changed = true
				}
			}
		}
	}
	for x := range set {
		w = append(w, x)
	}
	sort.Slice(w, func(i, j int) bool {
		if len(w[i]) != len(w[j]) {
			return len(w[i]) < len(w[j])
		}
		return w[i] < w[j]
	})
	return w, blocks
}
