package main

import (
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"

	"urnverif/model"
)

func realMode(m model.Mode) urn.ParsingMode {
	switch m {
	case model.M2141:
		return urn.RFC2141Only
	case model.M7643:
		return urn.RFC7643Only
	}
	return urn.RFC8141Only
}

func realKind(m model.Mode) urn.Kind {
	switch m {
	case model.M2141:
		return urn.RFC2141
	case model.M7643:
		return urn.RFC7643
	}
	return urn.RFC8141
}

var realType = map[string]scimschema.Type{"schemas": scimschema.Schemas, "api": scimschema.API, "param": scimschema.Param}

// parseM parses with a fresh parser.
func parseM(m model.Mode, in []byte) (*urn.URN, error) {
	return urn.NewMachine(urn.WithParsingMode(realMode(m))).Parse(in)
}

// parseP parses with the package-level function.
func parseP(m model.Mode, in []byte) (*urn.URN, bool) {
	if m == model.M2141 {
		return urn.Parse(in)
	}
	return urn.Parse(in, urn.WithParsingMode(realMode(m)))
}

// View is everything a user can see of a URN, without changing it.
type View struct {
	Nil     bool
	ID, SS  string
	Str     string
	R, Q, F string
	Kind    urn.Kind
	IsSCIM  bool
	HasSCIM bool
	Type    scimschema.Type
	Name    string
	Other   string
	SCIMStr string
}

func view(u *urn.URN) View {
	if u == nil {
		return View{Nil: true}
	}
	v := View{ID: u.ID, SS: u.SS, Str: u.String(), R: u.RComponent(), Q: u.QComponent(), F: u.FComponent(), Kind: u.RFC(), IsSCIM: u.IsSCIM()}
	if s := u.SCIM(); s != nil {
		v.HasSCIM = true
		v.Type, v.Name, v.Other, v.SCIMStr = s.Type, s.Name, s.Other, s.String()
	}
	return v
}

// expectView is the view the model gives of an accepted input.
func expectView(m model.Mode, in string) View {
	p := model.Decompose(m, in)
	v := View{ID: p.NID, SS: p.NSS, Str: p.String(), R: p.R, Q: p.Q, F: p.F, Kind: realKind(m)}
	if m == model.M7643 {
		v.IsSCIM, v.HasSCIM = true, true
		v.Type, v.Name, v.Other = realType[p.Type], p.Name, p.Other
		v.SCIMStr = "urn" + in[3:]
	}
	return v
}

func diffView(what string, got, want View) string {
	if got == want {
		return ""
	}
	return fmt.Sprintf("%s: got %s, want %s", what, got, want)
}

func (v View) String() string {
	if v.Nil {
		return "<nil>"
	}
	return fmt.Sprintf("{ID:%q SS:%q r:%q q:%q f:%q String:%q kind:%d scim:%v/%v type:%d name:%q other:%q scimString:%q}",
		clip(v.ID), clip(v.SS), clip(v.R), clip(v.Q), clip(v.F), clip(v.Str), v.Kind, v.IsSCIM, v.HasSCIM, v.Type, clip(v.Name), clip(v.Other), clip(v.SCIMStr))
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%s...(%d)...%s", s[:150], len(s), s[len(s)-60:])
	}
	return s
}

func errText(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

// sameErr tells whether two errors are the same one (the same text, if the errors cannot be compared).
func sameErr(a, b error) (same bool) {
	defer func() {
		if recover() != nil {
			same = errText(a) == errText(b)
		}
	}()
	return a == b
}

// clone shares no memory with the URN it was made of.
func (v View) clone() View {
	for _, s := range []*string{&v.ID, &v.SS, &v.Str, &v.R, &v.Q, &v.F, &v.Name, &v.Other, &v.SCIMStr} {
		*s = strings.Clone(*s)
	}
	return v
}
