//go:build regen

package main

import (
	"fmt"
	"os"

	urn "github.com/leodido/go-urn"
	gen "regen.example/urn"

	"urnverif/model"
)

// The comparison of the committed parser with the generated one.

func init() {
	if os.Getenv("VERIF_REGEN") == "" && len(os.Args) > 1 && os.Args[1] == "child" {
		return
	}
	inputProp("U22", allModes, func(e *Env) []Task { return e.standard(allModes) }, checkRegen)
}

type twins struct {
	a    urn.Machine
	b    gen.Machine
	left int
}

func viewGen(u *gen.URN) View {
	if u == nil {
		return View{Nil: true}
	}
	v := View{ID: u.ID, SS: u.SS, Str: u.String(), R: u.RComponent(), Q: u.QComponent(), F: u.FComponent(), Kind: urn.Kind(u.RFC()), IsSCIM: u.IsSCIM()}
	if s := u.SCIM(); s != nil {
		v.HasSCIM = true
		v.Type, v.Name, v.Other, v.SCIMStr = s.Type, s.Name, s.Other, s.String()
	}
	return v
}

func checkRegen(w *Worker, m model.Mode, in []byte) string {
	a, aerr := urn.NewMachine(urn.WithParsingMode(realMode(m))).Parse(in)
	b, berr := gen.NewMachine(gen.WithParsingMode(gen.ParsingMode(realMode(m)))).Parse(in)
	w.traces += 2
	if d := sameRegen("fresh parser", a, aerr, b, berr); d != "" {
		return m.String() + " " + d
	}
	// One pair of parsers over all inputs and modes (forgotten from time to time, so that a violation reproduces)
	t, _ := w.slots["twins"].(*twins)
	if t == nil || t.left == 0 {
		t = &twins{urn.NewMachine(), gen.NewMachine(), 1000}
		w.slots["twins"] = t
	}
	t.left--
	t.a.WithParsingMode(realMode(m))
	t.b.WithParsingMode(gen.ParsingMode(realMode(m)))
	a, aerr = t.a.Parse(in)
	b, berr = t.b.Parse(in)
	w.traces += 2
	if d := sameRegen("reused parser", a, aerr, b, berr); d != "" {
		return m.String() + " " + d
	}
	return ""
}

func sameRegen(who string, a *urn.URN, aerr error, b *gen.URN, berr error) string {
	if errText(aerr) != errText(berr) {
		return fmt.Sprintf("%s: the committed one gives the error %s, the generated one %s", who, errText(aerr), errText(berr))
	}
	if x, y := view(a), viewGen(b); x != y {
		return fmt.Sprintf("%s: the committed one gives %s, the generated one %s", who, x, y)
	}
	if a != nil && b != nil {
		if x, y := a.Normalize(), b.Normalize(); x.String() != y.String() {
			return fmt.Sprintf("%s: the normal forms are %q and %q", who, x.String(), y.String())
		}
	}
	return ""
}
